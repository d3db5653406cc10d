# GoodX has to be accepted, BadX refused: either an obligation fails, or the contract is reported as vacuous.

func t.GoodFrame(p)
  props C01
  requires p != nil
  modifies p.A

end
func t.BadFrame(p)
  props C01
  requires p != nil
  modifies p.A
end
func t.BadFrameAlias(p, q)
  props C01
  requires p != nil && q != nil
  modifies p.A
end
func t.GoodAlias(p, q)
  props C01
  requires p != nil && q != nil
  modifies p.A, q.B
  ensures p.A == 1 && q.B == 2
end
func t.BadAlias(p, q)
  props C01
  requires p != nil && q != nil
  modifies p.A, q.A
  ensures p.A == 1 && q.A == 2
end
func t.GoodFresh(p) (r)
  props C01
  requires p != nil
  ensures fresh(r) && r.N == p && r != p
end
func t.BadFreshField(p) (r)
  props C01
  requires p != nil
  ensures fresh(r)
end
func t.BadEscape(p) (r)
  props C01
  requires p != nil
  modifies p.N
  ensures p.N.A == 3
end
func t.GoodIndex(b, i) (r)
  props C01
end
func t.BadIndex(b, i) (r)
  props C01
end
func t.BadNil(p) (r)
  props C01
  requires p != nil
end
func t.BadDiv(a, b) (r)
  props C01
end
func t.BadAssert(x) (r)
  props C01
end
func t.BadWrap(a) (r)
  props C01
  ensures r > a
end
func t.GoodWrap(a) (r)
  props C01
  ensures r > a || a == 255
end
func t.BadSlice(b, n) (r)
  props C01
end
func t.GoodSlice(b, n) (r)
  props C01
  ensures len(r) == n || r == nil
end
func t.GoodSum(n) (s)
  props C01
  requires 0 <= n && n < 1000000000
  ensures s == 2 * n
  inv (i: int, s: int) s == 2 * i && i <= n
end
func t.BadSum(n) (s)
  props C01
  requires 0 <= n && n < 1000000000
  ensures s == 2 * n
  inv (i: int, s: int) s == 2 * i && i <= n
end
func t.BadFill(b)
  props C01
  modifies elems(b)
  ensures forall i: int :: 0 <= i && i < len(b) ==> b[i] == 7
  inv (n: int) (forall i: int :: 0 <= i && i < n + 1 && i < len(b) ==> b[i] == 7)
  inv (n: int) (forall i: int :: 0 <= i && i < n && i < len(b) ==> b[i] == 7)
end
func t.GoodForever(n)
  props C01
  terminates
  decreases (n: int) n
end
func t.BadForever(n)
  props C01
  terminates
  decreases (n: int) n
end
func t.GoodRead(r) (b, err)
  props C01
  requires r != nil
  modifies in(r)
  ensures err == nil ==> len(b) == 4
  ensures err == nil ==> old(in(r)) == bytes(b) ++ in(r)
end
func t.BadRead(r) (b, err)
  props C01
  requires r != nil
  modifies in(r)
  ensures err == nil ==> len(b) == 4
  ensures err == nil ==> old(in(r)) == bytes(b) ++ in(r)
end
func t.GoodWrite(w, b) (err)
  props C01
  requires w != nil
  modifies out(w)
  ensures err == nil ==> out(w) == old(out(w)) ++ old(bytes(b))
end
func t.BadWrite(w, b) (err)
  props C01
  requires w != nil
  modifies out(w)
  ensures err == nil ==> out(w) == old(out(w)) ++ old(bytes(b))
end

guarded t.L.m by mu

func t.L.GoodGet(l, k) (v)
  props C14
end
func t.L.BadGet(l, k) (v)
  props C14
end
func t.L.BadTwice(l, k) (v)
  props C14
end
func t.L.BadKeep(l, k) (v)
  props C14
end

def pumpok(c: *t.C) = c.in != nil && c.out != nil && c.quit != nil && c.in != c.out

func t.C.GoodPump(c)
  props C12
  requires pumpok(c)
  modifies everything
  neverclosed c.in
  inv pumpok(c) && c.in == old(c.in) && c.out == old(c.out) && c.quit == old(c.quit)
  step select [each once] nrecv(c.in) == 1 && !exits() ==> nsent() == 1 && nsent(c.out) == 1 && sentv(c.out) == recvv(c.in)
  step select [ends on request] exits() ==> nrecv(c.quit) == 1
end
func t.C.BadPumpDrop(c)
  props C12
  requires pumpok(c)
  modifies everything
  neverclosed c.in
  inv pumpok(c) && c.in == old(c.in) && c.out == old(c.out) && c.quit == old(c.quit)
  step select [each once] nrecv(c.in) == 1 && !exits() ==> nsent() == 1 && nsent(c.out) == 1 && sentv(c.out) == recvv(c.in)
  step select [ends on request] exits() ==> nrecv(c.quit) == 1
end
func t.C.BadPumpTwice(c)
  props C12
  requires pumpok(c)
  modifies everything
  neverclosed c.in
  inv pumpok(c) && c.in == old(c.in) && c.out == old(c.out) && c.quit == old(c.quit)
  step select [each once] nrecv(c.in) == 1 && !exits() ==> nsent() == 1 && nsent(c.out) == 1 && sentv(c.out) == recvv(c.in)
  step select [ends on request] exits() ==> nrecv(c.quit) == 1
end
func t.C.BadPumpChange(c)
  props C12
  requires pumpok(c)
  modifies everything
  neverclosed c.in
  inv pumpok(c) && c.in == old(c.in) && c.out == old(c.out) && c.quit == old(c.quit)
  step select [each once] nrecv(c.in) == 1 && !exits() ==> nsent() == 1 && nsent(c.out) == 1 && sentv(c.out) == recvv(c.in)
  step select [ends on request] exits() ==> nrecv(c.quit) == 1
end
func t.C.BadPumpEnd(c)
  props C12
  requires pumpok(c)
  modifies everything
  neverclosed c.in
  inv pumpok(c) && c.in == old(c.in) && c.out == old(c.out) && c.quit == old(c.quit)
  step select [each once] nrecv(c.in) == 1 && !exits() ==> nsent() == 1 && nsent(c.out) == 1 && sentv(c.out) == recvv(c.in)
  step select [ends on request] exits() ==> nrecv(c.quit) == 1
end
func t.C.BadCloseTwice(c)
  props C12
  requires pumpok(c)
  modifies everything
end

func t.callee(p)
  props C01
  requires p != nil
  modifies p.A, p.B
  ensures p.A == 5
end
func t.GoodCall(p) (r)
  props C01
  requires p != nil
  modifies p.A, p.B
  ensures r == 5
end
func t.BadCall(p) (r)
  props C01
  requires p != nil
  modifies p.A, p.B
  ensures r == 9
end
func t.BadVacuous(a) (r)
  props C01
  requires a < 0 && a > 0
  ensures r == 17
end

rec tri(n: int): int decreases n = if n <= 0 then 0 else n + tri(n - 1)
func t.GoodRec(n) (s)
  props C01
  requires 0 <= n && n < 1000
  ensures s == tri(n)
  inv (i: int, s: int) s == tri(i - 1) && 1 <= i && i <= n + 1 && tri(i) == i + tri(i - 1) && 0 <= s && s <= 1000 * i
end
lemma GoodLemma(a: int, b: int)
  props C01
  requires a > b
  ensures a >= b + 1
end
lemma BadLemma(a: int, b: int)
  props C01
  requires a > b
  ensures a > b + 1
end

interface t.Sink.Put(s, p)
  event
end
func t.GoodPut(s, p)
  props C01
  requires s != nil && p != nil
  modifies everything
  ensures ncall("t.Sink.Put") == 1 && atcall("t.Sink.Put", p.A) == 1
end
func t.BadPut(s, p)
  props C01
  requires s != nil && p != nil
  modifies everything
  ensures ncall("t.Sink.Put") == 1 && atcall("t.Sink.Put", p.A) == 1
end

def castok(m: *t.M) = m.in != nil && m.outs != nil && (forall i: int :: has(m.outs, i) ==> m.outs[i] != nil && m.outs[i] != m.in)
func t.M.GoodCast(m)
  props C12
  requires castok(m)
  modifies everything
  neverclosed m.in
  inv castok(m) && m.in == old(m.in) && m.outs == old(m.outs)
  step range [each gets it] outer(nrecvok(m.in)) == 1 ==> nsent() == 1 && nsent(m.outs[rangekey()]) == 1 && sentv(m.outs[rangekey()]) == outer(recvv(m.in))
end
func t.M.BadCast(m)
  props C12
  requires castok(m)
  modifies everything
  neverclosed m.in
  inv castok(m) && m.in == old(m.in) && m.outs == old(m.outs)
  step range [each gets it] outer(nrecvok(m.in)) == 1 ==> nsent() == 1 && nsent(m.outs[rangekey()]) == 1 && sentv(m.outs[rangekey()]) == outer(recvv(m.in))
end

guarded t.S.m by mu shared (s) [entries are added, never replaced] {C11}
  s.m != nil && s.m == old(s.m) && (forall i: int :: old(has(s.m, i)) ==> has(s.m, i) && s.m[i] == old(s.m[i]))
func t.S.GoodAdd(s, k) (ok)
  props C11
  requires s.m != nil && (forall i: int :: has(s.m, i) ==> s.m[i] == 2)
  modifies map(s.m)
  ensures ok ==> has(s.m, k)
end
func t.S.BadAdd(s, k) (ok)
  props C11
  requires s.m != nil
  modifies map(s.m)
  ensures ok ==> has(s.m, k)
end

func t.G.GoodSpawn(g, v)
  props C12
  requires g.c != nil
  spawn ()
    ensures nsent() == 1 && nsent(g.c) == 1 && sentv(g.c) == v
  end
end
func t.G.BadSpawn(g, v)
  props C12
  requires g.c != nil
  spawn ()
    ensures nsent() == 1 && nsent(g.c) == 1 && sentv(g.c) == v
  end
end

func t.BadShare(b) (r)
  props C01
  ensures fresh(r) || len(r) == 0
end
func t.GoodCopy(b) (r)
  props C01
  ensures bytes(r) == bytes(b)
  ensures fresh(r) || len(r) == 0
end
func t.BadAppend(b) (r)
  props C01
  ensures bytes(r) == bytes(b) ++ seq(1)
end

func t.GoodHelper(b) (n)
  props C01
  ensures 2 * n <= len(b) && len(b) <= 2 * n + 1
end
func t.BadHelper(b) (n)
  props C01
  ensures 2 * n <= len(b)
end
func t.needs(p) (n)
  props C01
  requires p != nil && p.A > 0
  ensures n == p.A
end
func t.BadPre(p) (n)
  props C01
  requires p != nil
end
func t.GoodDefer(p) (n)
  props C01
  requires p != nil
  ensures n == p.A
end
func t.BadDefer(p) (n)
  props C01
  requires p != nil
  ensures n == 3
end
func t.BadConv(n) (r)
  props C01
  ensures r == n
end
func t.GoodSwitch(x) (n)
  props C01
end
func t.BadSwitch(x) (n)
  props C01
end
func t.BadMapNil(m)
  props C01
  modifies map(m)
end
func t.BadMake(n) (r)
  props C01
end
func t.BadShift(a, n) (r)
  props C01
end
func t.BadUint(a, b) (r)
  props C01
  ensures r <= a
end
func t.GoodString(s) (r)
  props C01
end
func t.BadString(s) (r)
  props C01
end
func t.C.BadDefault(c)
  props C12
  requires pumpok(c)
  modifies everything
  neverclosed c.in
  inv pumpok(c) && c.in == old(c.in) && c.out == old(c.out) && c.quit == old(c.quit)
  step select [each once] nrecv(c.in) == 1 && !exits() ==> nsent() == 1 && nsent(c.out) == 1 && sentv(c.out) == recvv(c.in)
end
func t.C.GoodOrder(c)
  props C12
  requires pumpok(c)
  modifies everything
  neverclosed c.out
  ensures nclose(c.out) == 1 && evindex(send, c.out) < evindex(close, c.out)
end
func t.C.BadOrder(c)
  props C12
  requires pumpok(c)
  modifies everything
  neverclosed c.out
  ensures nclose(c.out) == 1
end
func t.BadOld(p)
  props C01
  requires p != nil
  modifies p.A, p.B
  ensures p.A == old(p.A)
end
