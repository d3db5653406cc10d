# Package spec: fixed-width integers on the wire, and single reads.

func spec.Uint16(b) (n)
  props C10
  requires [at most two bytes] len(b) <= 2
  ensures [big-endian value, missing leading bytes are zero] {C10} n == beval(zeros(2 - len(b)) ++ bytes(b), 2)
end

func spec.Uint32(b) (n)
  props C10
  requires [at most four bytes] len(b) <= 4
  ensures [big-endian value, missing leading bytes are zero] {C10} n == beval(zeros(4 - len(b)) ++ bytes(b), 4)
end

func spec.Uint64(b) (n)
  props C10
  requires [at most eight bytes] len(b) <= 8
  ensures [big-endian value, missing leading bytes are zero] {C10} n == beval(zeros(8 - len(b)) ++ bytes(b), 8)
end

func spec.LittleEndianUint32(b) (n)
  props C10
  requires [at most four bytes] len(b) <= 4
  requires [known finding: a shorter slice with room behind it is overwritten there] len(b) == 4 || cap(b) < 4
  ensures [little-endian value, missing trailing bytes are zero] {C10} n == leval(bytes(b) ++ zeros(4 - len(b)), 4)
end

# what one write of s to w means: all of s is appended in a single call, or the call
# fails, reports it, and at most a prefix was taken
def wrote1(w: io.Writer, s: seq, n: int, err: error) =
  (err == nil ==> out(w) == old(out(w)) ++ s && n == len(s) && wfails(w) == old(wfails(w)))
  && (err != nil ==> wfails(w) == old(wfails(w)) + 1)

func spec.PutUint8(v, w) (n, err)
  props C10
  requires w != nil
  modifies out(w)
  ensures [one byte] {C10} wrote1(w, seq(v), n, err)
end

func spec.PutUint16(v, w) (n, err)
  props C10
  requires w != nil
  modifies out(w)
  ensures [two bytes, big-endian] {C10} wrote1(w, be(v, 2), n, err)
end

func spec.PutUint24(v, w) (n, err)
  props C10
  requires w != nil
  modifies out(w)
  ensures [the low three bytes, big-endian] {C10} wrote1(w, be(v, 3), n, err)
end

func spec.PutUint32(v, w) (n, err)
  props C10
  requires w != nil
  modifies out(w)
  ensures [four bytes, big-endian] {C10} wrote1(w, be(v, 4), n, err)
end

func spec.LittleEndianPutUint32(v, w) (n, err)
  props C10
  requires w != nil
  modifies out(w)
  ensures [four bytes, little-endian] {C10} wrote1(w, le(v, 4), n, err)
end

# reading n bytes: exactly the next n, or an error when the input ends before
func spec.ReadBytes(r, n) (buf, err)
  props C09, C15
  requires r != nil
  requires n >= 0 && n <= 4294967295
  modifies in(r)
  ensures [succeeds exactly when n bytes are left] {C09,C15} (err == nil) <==> len(old(in(r))) >= n
  ensures [the next n bytes] {C09,C15} err == nil ==> bytes(buf) == old(in(r))[0:n] && in(r) == old(in(r))[n:]
  ensures len(buf) == n && fresh(buf)
  ensures err != nil ==> len(in(r)) == 0
end

func spec.Min(a, b) (r)
  props C03, C05
  ensures r == min(a, b)
end

func spec.Max(a, b) (r)
  props C03
  ensures r == max(a, b)
end
