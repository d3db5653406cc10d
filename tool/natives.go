package main

// Contracts of the standard library functions the repository uses, as models over
// ghost state: what a reader still holds, what a writer has received.

import (
	"os"
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type native func(x *Exec, st *State, args []Value, pos token.Pos, k Cont)
type ifaceNative func(x *Exec, st *State, recv Iface, args []Value, pos token.Pos, k Cont)

var natives map[string]native
var ifaceNatives map[string]ifaceNative

const bufContent = "bytes.Buffer|.content"

func (x *Exec) newErr(st *State, why string) Value {
	t := x.errType()
	id := x.alloc(st)
	return Iface{Tag: tagOf(t), Data: id, Dyn: t, Val: Ptr{Root: under(t).(*types.Pointer).Elem(), Addr: id, Elem: under(t).(*types.Pointer).Elem()}}
}

// an error of unknown identity
func (x *Exec) someErr(st *State) Value {
	tag := FreshVar("errtag", SInt, ptrRng)
	d := FreshVar("err", SInt, ptrRng)
	st.assume(Gt(tag, Int(0)))
	st.ptrFact(d)
	x.use(st)
	return Iface{Tag: tag, Data: d}
}
func (x *Exec) errType() types.Type {
	if p := x.p.Pkgs["errors"]; p != nil {
		if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
			return types.NewPointer(o.Type())
		}
	}
	panic(unsupportedErr{"errors package not loaded"})
}

// ---- streams: where the bytes a reader still holds / a writer got are recorded

func (x *Exec) inLoc(st *State, i Iface) (string, *Term) {
	i = st.resolve(i)
	if i.Dyn != nil {
		switch typeKey(i.Dyn) {
		case "*bytes.Buffer":
			return bufContent, i.Val.(Ptr).Addr
		case "*bytes.Reader":
			return "bytes.Reader|.content", i.Val.(Ptr).Addr
		}
		panic(unsupportedErr{"reader of type " + i.Dyn.String()})
	}
	return "ghost:in", i.Data
}
func (x *Exec) outLoc(st *State, i Iface) (string, *Term) {
	i = st.resolve(i)
	if i.Dyn != nil {
		if typeKey(i.Dyn) == "*bytes.Buffer" {
			return bufContent, i.Val.(Ptr).Addr
		}
		panic(unsupportedErr{"writer of type " + i.Dyn.String()})
	}
	return "ghost:out", i.Data
}
func (st *State) seqAt(c string, a *Term) *Term { return Select(st.get(c, ArrOf(SSeq), byteRng), a) }
func (st *State) setSeq(c string, a, v *Term) {
	st.set(c, Store(st.get(c, ArrOf(SSeq), byteRng), a, v))
}
func (st *State) intAt(c string, a *Term) *Term { return Select(st.get(c, ArrOf(SInt), lenRng), a) }
func (st *State) addInt(c string, a, n *Term) {
	st.set(c, Store(st.get(c, ArrOf(SInt), lenRng), a, Add(st.intAt(c, a), n)))
}

func (x *Exec) eofOf(st *State, i Iface) *Term {
	i = st.resolve(i)
	if i.Dyn != nil {
		return True
	}
	return App("ends_eof", SBool, nil, i.Data)
}

// drop n bytes from the front of what a reader holds
func (st *State) consume(c string, a, n *Term) {
	s := st.seqAt(c, a)
	st.setSeq(c, a, Extract(s, n, Sub(Len(s), n)))
}

func (x *Exec) readFull(st *State, r Iface, buf Slice, min *Term, pos token.Pos, k Cont) {
	c, a := x.inLoc(st, r)
	in := st.seqAt(c, a)
	L := buf.Len
	if L != Int(0) {
		x.writable(st, &buf.Arr, pos)
	}
	x.fork(st,
		alt{Ge(Len(in), L), "the bytes asked for arrive", func(st *State) {
			x.setSlice(st, buf, Int(0), Extract(in, Int(0), L))
			st.consume(c, a, L)
			k(st, []Value{Scalar{L}, nilIface})
		}},
		alt{Lt(Len(in), L), "the input ends early", func(st *State) {
			n := Len(in)
			x.setSlice(st, buf, Int(0), in)
			st.setSeq(c, a, EmptySeq)
			k(st, []Value{Scalar{n}, x.someErr(st)})
		}})
}

// one Write call on a writer
func (x *Exec) writeTo(st *State, w Iface, data *Term, pos token.Pos, k func(st *State, n *Term, err Value)) {
	w = st.resolve(w)
	if w.Dyn != nil && typeKey(w.Dyn) != "*bytes.Buffer" {
		panic(unsupportedErr{"writer of type " + w.Dyn.String()})
	}
	c, a := x.outLoc(st, w)
	if c == bufContent {
		x.bufWritable(st, a, pos)
		st.setSeq(c, a, Concat(SSeq, st.seqAt(c, a), data))
		k(st, Len(data), nilIface)
		return
	}
	ok := FreshVar("writeok", SBool, nil)
	x.fork(st,
		alt{ok, "the write succeeds", func(st *State) {
			st.setSeq(c, a, Concat(SSeq, st.seqAt(c, a), data))
			st.addInt("ghost:wcalls", a, Int(1))
			k(st, Len(data), nilIface)
		}},
		alt{Not(ok), "the write fails", func(st *State) {
			n := FreshVar("short", SInt, lenRng)
			st.assume(Le(n, Len(data)))
			x.use(st)
			st.setSeq(c, a, Concat(SSeq, st.seqAt(c, a), Extract(data, Int(0), n)))
			st.addInt("ghost:wcalls", a, Int(1))
			st.addInt("ghost:wfails", a, Int(1))
			e := x.someErr(st)
			st.set("ghost:werr", Store(st.get("ghost:werr", ArrOf(SInt), ptrRng), a, st.ifaceData(e.(Iface))))
			k(st, n, e)
		}})
}

// writes to a buffer whose bytes are shared are outside the model
func (x *Exec) bufWritable(st *State, a *Term, pos token.Pos) {
	al := Select(st.get("bytes.Buffer|.alias", ArrOf(SInt), ptrRng), a)
	tn := Select(st.get("bytes.Buffer|.taint", ArrOf(SBool), nil), a)
	if al != Int(0) || tn != False {
		if a.isInt() || x.old == nil {
			panic(unsupportedErr{"write to a bytes.Buffer whose memory is shared"})
		}
		// a buffer handed in: its owner's contract covers it
	}
}

func bufPtr(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok || p.Arr != nil {
		panic(unsupportedErr{"bytes.Buffer receiver"})
	}
	return p
}
func bufComp(p Ptr) string { return comp(p.Root, p.Path+".content") }

func (x *Exec) bufNonNil(st *State, p Ptr, pos token.Pos) { x.nonNil(st, p, pos, "buffer") }

func newBufOver(typ string) native {
	return func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
		t := x.p.lookupType(typ)
		p := x.newObject(st, t)
		s := args[0].(Slice)
		st.setSeq(bufComp(p), p.Addr, st.seqOf(s))
		if typ == "bytes.Buffer" {
			c := typ + "|.alias"
			al := s.Arr.Addr
			if s.Arr.Snap != nil {
				al = Int(1)
			}
			st.set(c, Store(st.get(c, ArrOf(SInt), ptrRng), p.Addr, Ite(Eq(s.Cap, Int(0)), Int(0), al)))
		}
		k(st, []Value{p})
	}
}

func one(v Value) []Value { return []Value{v} }

func bufRead(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
	p := bufPtr(args[0])
	x.bufNonNil(st, p, pos)
	buf := args[1].(Slice)
	c := bufComp(p)
	in := st.seqAt(c, p.Addr)
	x.writable(st, &buf.Arr, pos)
	x.fork(st,
		alt{And(Eq(Len(in), Int(0)), Gt(buf.Len, Int(0))), "buffer empty", func(st *State) {
			k(st, []Value{Scalar{Int(0)}, x.someErr(st)})
		}},
		alt{Not(And(Eq(Len(in), Int(0)), Gt(buf.Len, Int(0)))), "", func(st *State) {
			n := Ite(Le(Len(in), buf.Len), Len(in), buf.Len)
			x.setSlice(st, buf, Int(0), Extract(in, Int(0), n))
			st.consume(c, p.Addr, n)
			k(st, []Value{Scalar{n}, nilIface})
		}})
}
func bufReadByte(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
	p := bufPtr(args[0])
	x.bufNonNil(st, p, pos)
	c := bufComp(p)
	in := st.seqAt(c, p.Addr)
	x.fork(st,
		alt{Ge(Len(in), Int(1)), "", func(st *State) {
			b := Nth(in, Int(0))
			st.consume(c, p.Addr, Int(1))
			k(st, []Value{Scalar{b}, nilIface})
		}},
		alt{Lt(Len(in), Int(1)), "buffer empty", func(st *State) { k(st, []Value{Scalar{Int(0)}, x.someErr(st)}) }})
}

func mutexOp(name string) native {
	return func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
		p := args[0].(Ptr)
		x.nonNil(st, p, pos, "mutex")
		x.lockOp(st, name, p, pos)
		k(st, nil)
	}
}
func eventOp(name string) native {
	return func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
		if p, ok := args[0].(Ptr); ok {
			x.nonNil(st, p, pos, "waitgroup")
		}
		st.events = append(st.events, Event{Kind: "call", Name: name, Args: args})
		if p, ok := args[0].(Ptr); ok {
			switch name {
			case "sync.WaitGroup.Add":
				st.wgAdd(p, args[1].(Scalar).T)
			case "sync.WaitGroup.Done":
				st.wgAdd(p, Int(-1))
			}
		}
		k(st, nil)
	}
}

// how many completions a wait group waits for
func (st *State) wgComp(p Ptr) (string, *Term) {
	if p.Arr != nil {
		panic(unsupportedErr{"wait group in an array"})
	}
	return comp(p.Root, p.Path+".count"), p.Addr
}

func (st *State) wgAdd(p Ptr, n *Term) {
	c, a := st.wgComp(p)
	base := st.get(c, ArrOf(SInt), nil)
	st.set(c, Store(base, a, Add(Select(base, a), n)))
}

// byte encoding of fixed-size values, as encoding/binary lays them out
func encFixed(st *State, v Value, t types.Type, big bool) (*Term, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		w, s, ok := intInfo(t)
		if !ok || u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return nil, false
		}
		n := v.(Scalar).T
		if s {
			n = Mod(n, BigT(pow2(w)))
		}
		return encInt(n, w/8, big), true
	case *types.Array:
		a, ok := v.(Array)
		if ok && a.Seq != nil && typeKey(under(u.Elem())) == "uint8" {
			return a.Seq, true
		}
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			return nil, false
		}
		var out []*Term
		for i, f := range s.Fields {
			e, ok := encFixed(st, f, u.Field(i).Type(), big)
			if !ok {
				return nil, false
			}
			out = append(out, e)
		}
		return Concat(SSeq, out...), true
	case *types.Slice:
		if s, ok := v.(Slice); ok && typeKey(under(u.Elem())) == "uint8" {
			return st.seqOf(s), true
		}
	}
	return nil, false
}
func encInt(n *Term, k int, big bool) *Term {
	us := make([]*Term, k)
	for i := 0; i < k; i++ {
		b := Mod(Div(n, BigT(pow2(8*i))), Int(256))
		if big {
			us[k-1-i] = Unit(b)
		} else {
			us[i] = Unit(b)
		}
	}
	return Concat(SSeq, us...)
}
func decInt(s *Term, k int, big bool) *Term {
	r := Int(0)
	for i := 0; i < k; i++ {
		p := i
		if big {
			p = k - 1 - i
		}
		r = Add(r, MulC(Nth(s, Int(int64(p))), pow2(8*i)))
	}
	return r
}
func sizeFixed(t types.Type) (int64, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		w, _, ok := intInfo(t)
		if !ok || u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return 0, false
		}
		return int64(w / 8), true
	case *types.Array:
		if typeKey(under(u.Elem())) == "uint8" {
			return u.Len(), true
		}
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			k, ok := sizeFixed(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	}
	return 0, false
}
func decFixed(s *Term, t types.Type, big bool) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		w, sg, _ := intInfo(t)
		n := decInt(s, w/8, big)
		if sg {
			n = wrap(n, t)
		}
		return Scalar{n}
	case *types.Array:
		return Array{t, s}
	case *types.Struct:
		r := Struct{T: t}
		off := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			k, _ := sizeFixed(u.Field(i).Type())
			r.Fields = append(r.Fields, decFixed(Extract(s, Int(off), Int(k)), u.Field(i).Type(), big))
			off += k
		}
		return r
	}
	panic(unsupportedErr{"binary.Read"})
}

func isBig(st *State, v Value) bool {
	i, ok := v.(Iface)
	if ok {
		i = st.resolve(i)
		if i.Dyn != nil {
			switch typeKey(i.Dyn) {
			case "encoding/binary.bigEndian":
				return true
			case "encoding/binary.littleEndian":
				return false
			}
		}
	}
	panic(unsupportedErr{"byte order"})
}

func asIface(v Value) Iface {
	i, ok := v.(Iface)
	if !ok {
		panic(unsupportedErr{"interface argument"})
	}
	return i
}

// reading a value through a temporary of known size
func (x *Exec) binaryRead(st *State, args []Value, pos token.Pos, k Cont) {
	r := asIface(args[0])
	big := isBig(st, args[1])
	d := st.resolve(asIface(args[2]))
	x.must(st, "panic", "method call on nil interface", pos, Ne(r.Tag, Int(0)))
	if d.Dyn == nil {
		panic(unsupportedErr{"binary.Read into unknown type"})
	}
	c, a := x.inLoc(st, r)
	in := st.seqAt(c, a)
	short := func(st *State) {
		st.setSeq(c, a, EmptySeq)
		k(st, one(x.someErr(st)))
	}
	if sl, ok := d.Val.(Slice); ok && typeKey(under(sl.Elem)) == "uint8" {
		x.readFull(st, r, sl, sl.Len, pos, func(st *State, rs []Value) { k(st, rs[1:]) })
		return
	}
	p, ok := d.Val.(Ptr)
	if !ok {
		panic(unsupportedErr{"binary.Read"})
	}
	n, ok := sizeFixed(p.Elem)
	if !ok {
		panic(unsupportedErr{"binary.Read into " + p.Elem.String()})
	}
	x.nonNil(st, p, pos, "binary.Read")
	x.fork(st,
		alt{Ge(Len(in), Int(n)), "the bytes asked for arrive", func(st *State) {
			s := Extract(in, Int(0), Int(n))
			st.consume(c, a, Int(n))
			x.guarded(st, p, pos)
			st.store(p, decFixed(s, p.Elem, big))
			k(st, one(nilIface))
		}},
		alt{Lt(Len(in), Int(n)), "the input ends early", short})
}
func (x *Exec) binaryWrite(st *State, args []Value, pos token.Pos, k Cont) {
	w := asIface(args[0])
	big := isBig(st, args[1])
	d := st.resolve(asIface(args[2]))
	x.must(st, "panic", "method call on nil interface", pos, Ne(w.Tag, Int(0)))
	if d.Dyn == nil {
		panic(unsupportedErr{"binary.Write of unknown type"})
	}
	v, t := d.Val, d.Dyn
	if p, ok := v.(Ptr); ok {
		x.nonNil(st, p, pos, "binary.Write")
		v, t = st.load(p), p.Elem
	}
	e, ok := encFixed(st, v, t, big)
	if !ok {
		panic(unsupportedErr{"binary.Write of " + t.String()})
	}
	x.writeTo(st, w, e, pos, func(st *State, n *Term, err Value) { k(st, one(err)) })
}

// copying everything a reader holds
func (x *Exec) ioCopy(st *State, dst, src Iface, limit *Term, pos token.Pos, k Cont) {
	x.must(st, "panic", "method call on nil interface", pos, And(Ne(dst.Tag, Int(0)), Ne(src.Tag, Int(0))))
	src = st.resolve(src)
	dst = st.resolve(dst)
	c, a := x.inLoc(st, src)
	in := st.seqAt(c, a)
	if limit == nil && src.Dyn != nil {
		// WriteTo: one write of everything, none when there is nothing
		x.fork(st,
			alt{Gt(Len(in), Int(0)), "", func(st *State) {
				st.setSeq(c, a, EmptySeq)
				x.writeTo(st, dst, in, pos, func(st *State, n *Term, err Value) { k(st, []Value{Scalar{n}, err}) })
			}},
			alt{Eq(Len(in), Int(0)), "", func(st *State) { k(st, []Value{Scalar{Int(0)}, nilIface}) }})
		return
	}
	if dst.Dyn == nil {
		panic(unsupportedErr{"io.Copy between unknown streams"})
	}
	n := Len(in)
	short := False
	if limit != nil {
		short = Lt(n, limit)
		n = Ite(Le(limit, Int(0)), Int(0), Ite(Le(limit, Len(in)), limit, Len(in)))
	}
	data := Extract(in, Int(0), n)
	st.consume(c, a, n)
	x.writeTo(st, dst, data, pos, func(st *State, _ *Term, _ Value) {
		eof := x.eofOf(st, src)
		okc := eof
		if limit != nil {
			okc = Not(short)
		}
		x.fork(st,
			alt{okc, "", func(st *State) { k(st, []Value{Scalar{n}, nilIface}) }},
			alt{Not(okc), "the source ends early", func(st *State) { k(st, []Value{Scalar{n}, x.someErr(st)}) }})
	})
}

func (x *Exec) reflectType(st *State, tv TypeVal, name string, args []Value, k Cont) {
	switch name {
	case "Elem":
		switch u := under(tv.T).(type) {
		case *types.Pointer:
			k(st, one(x.rtype(u.Elem())))
			return
		}
	}
	panic(unsupportedErr{"reflect.Type." + name})
}
func (x *Exec) reflectSym(st *State, i Iface, name string, args []Value, k Cont) {
	panic(unsupportedErr{"reflect.Type." + name + " on an unknown type"})
}
func (x *Exec) rtypeType() types.Type {
	t := x.p.lookupType("reflect.rtype")
	return t
}
func (x *Exec) rtype(t types.Type) Value {
	rt := x.rtypeType()
	return Iface{Tag: tagOf(rt), Data: tagOf(t), Dyn: rt, Val: TypeVal{t}}
}

func init() {
	nat := map[string]native{
		"errors.New":   func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) { k(st, one(x.newErr(st, "errors.New"))) },
		"fmt.Errorf":   func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) { k(st, one(x.newErr(st, "fmt.Errorf"))) },
		"fmt.Sprintf":  func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) { k(st, one(Scalar{FreshVar("sprintf", SInt, nil)})) },
		"fmt.Sprint":   func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) { k(st, one(Scalar{FreshVar("sprint", SInt, nil)})) },
		"bytes.Equal":  bytesEqual,
		"bytes.NewBuffer":  newBufOver("bytes.Buffer"),
		"bytes.NewReader":  newBufOver("bytes.Reader"),
		"bytes.Buffer.Read": bufRead, "bytes.Reader.Read": bufRead,
		"bytes.Buffer.ReadByte": bufReadByte, "bytes.Reader.ReadByte": bufReadByte,
		"sync.Mutex.Lock": mutexOp("Lock"), "sync.Mutex.Unlock": mutexOp("Unlock"),
		"sync.RWMutex.Lock": mutexOp("Lock"), "sync.RWMutex.Unlock": mutexOp("Unlock"),
		"sync.RWMutex.RLock": mutexOp("Lock"), "sync.RWMutex.RUnlock": mutexOp("Unlock"),
		"sync.WaitGroup.Add": eventOp("sync.WaitGroup.Add"), "sync.WaitGroup.Done": eventOp("sync.WaitGroup.Done"), "sync.WaitGroup.Wait": eventOp("sync.WaitGroup.Wait"),
		"io.ReadFull": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			r := asIface(args[0])
			x.must(st, "panic", "method call on nil interface", pos, Ne(r.Tag, Int(0)))
			b := args[1].(Slice)
			x.readFull(st, r, b, b.Len, pos, k)
		},
		"encoding/binary.Read":  func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) { x.binaryRead(st, args, pos, k) },
		"encoding/binary.Write": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) { x.binaryWrite(st, args, pos, k) },
		"io.Copy": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			x.ioCopy(st, asIface(args[0]), asIface(args[1]), nil, pos, k)
		},
		"io.CopyN": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			x.ioCopy(st, asIface(args[0]), asIface(args[1]), args[2].(Scalar).T, pos, k)
		},
		"io.ReadAll": readAll, "io/ioutil.ReadAll": readAll,
		"crypto/rand.Read": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			b := args[0].(Slice)
			v := FreshVar("random", SSeq, byteRng)
			st.assume(Eq(Len(v), b.Len))
			x.use(st)
			x.writable(st, &b.Arr, pos)
			x.setSlice(st, b, Int(0), v)
			k(st, []Value{Scalar{b.Len}, x.symbolic(st, types.Universe.Lookup("error").Type(), "randerr")})
		},
		"reflect.TypeOf": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			i := st.resolve(asIface(args[0]))
			if i.Dyn == nil {
				panic(unsupportedErr{"reflect.TypeOf of an unknown type"})
			}
			k(st, one(x.rtype(i.Dyn)))
		},
		"reflect.New": reflectNew,
		"reflect.Value.Interface": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			k(st, one(args[0].(ReflVal).V))
		},
	}
	bm := map[string]native{
		"Len": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			x.bufNonNil(st, p, pos)
			k(st, one(Scalar{Len(st.seqAt(bufComp(p), p.Addr))}))
		},
		"Bytes": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			x.bufNonNil(st, p, pos)
			s := x.freshSlice(st, types.Typ[types.Uint8], st.seqAt(bufComp(p), p.Addr), false)
			c := comp(p.Root, p.Path+".taint")
			st.set(c, Store(st.get(c, ArrOf(SBool), nil), p.Addr, True))
			k(st, one(s))
		},
		"Write": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			x.bufNonNil(st, p, pos)
			x.bufWritable(st, p.Addr, pos)
			s := args[1].(Slice)
			c := bufComp(p)
			st.setSeq(c, p.Addr, Concat(SSeq, st.seqAt(c, p.Addr), st.seqOf(s)))
			k(st, []Value{Scalar{s.Len}, nilIface})
		},
		"WriteByte": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			x.bufNonNil(st, p, pos)
			x.bufWritable(st, p.Addr, pos)
			c := bufComp(p)
			st.setSeq(c, p.Addr, Concat(SSeq, st.seqAt(c, p.Addr), Unit(args[1].(Scalar).T)))
			k(st, one(nilIface))
		},
		"WriteTo": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			x.bufNonNil(st, p, pos)
			t := types.NewPointer(p.Elem)
			x.ioCopy(st, asIface(args[1]), Iface{Tag: tagOf(t), Data: p.Addr, Dyn: t, Val: p}, nil, pos, k)
		},
		"ReadFrom": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			x.bufNonNil(st, p, pos)
			r := asIface(args[1])
			x.must(st, "panic", "method call on nil interface", pos, Ne(r.Tag, Int(0)))
			c, a := x.inLoc(st, r)
			in := st.seqAt(c, a)
			st.setSeq(c, a, EmptySeq)
			bc := bufComp(p)
			x.bufWritable(st, p.Addr, pos)
			st.setSeq(bc, p.Addr, Concat(SSeq, st.seqAt(bc, p.Addr), in))
			eof := x.eofOf(st, r)
			x.fork(st,
				alt{eof, "", func(st *State) { k(st, []Value{Scalar{Len(in)}, nilIface}) }},
				alt{Not(eof), "the reader fails", func(st *State) { k(st, []Value{Scalar{Len(in)}, x.someErr(st)}) }})
		},
		"Next": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			x.bufNonNil(st, p, pos)
			c := bufComp(p)
			in := st.seqAt(c, p.Addr)
			n := args[1].(Scalar).T
			x.must(st, "panic", "slice bounds out of range", pos, Ge0(n))
			n = Ite(Le(n, Len(in)), n, Len(in))
			s := x.freshSlice(st, types.Typ[types.Uint8], Extract(in, Int(0), n), false)
			st.consume(c, p.Addr, n)
			k(st, one(s))
		},
		"Reset": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			x.bufNonNil(st, p, pos)
			st.setSeq(bufComp(p), p.Addr, EmptySeq)
			k(st, nil)
		},
		"Grow": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			x.must(st, "panic", "negative Grow", pos, Ge0(args[1].(Scalar).T))
			k(st, nil)
		},
		"String": func(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
			p := bufPtr(args[0])
			k(st, one(Scalar{App("bytestr", SInt, nil, st.seqAt(bufComp(p), p.Addr))}))
		},
	}
	for n, f := range bm {
		nat["bytes.Buffer."+n] = f
	}
	nat["bytes.Reader.Len"] = bm["Len"]
	nat["bytes.Reader.WriteTo"] = bm["WriteTo"]
	natives = nat

	rw := "func(p []byte) (n int, err error)"
	ifn := map[string]ifaceNative{
		"Read" + rw: func(x *Exec, st *State, r Iface, args []Value, pos token.Pos, k Cont) {
			buf := args[0].(Slice)
			in := st.seqAt("ghost:in", r.Data)
			n := FreshVar("read", SInt, lenRng)
			st.assume(And(Le(n, buf.Len), Le(n, Len(in))))
			x.use(st)
			if buf.Len != Int(0) {
				x.writable(st, &buf.Arr, pos)
			}
			x.setSlice(st, buf, Int(0), Extract(in, Int(0), n))
			st.consume("ghost:in", r.Data, n)
			left := Len(st.seqAt("ghost:in", r.Data))
			bad := FreshVar("readerr", SBool, nil)
			x.fork(st,
				alt{Not(bad), "read succeeds", func(st *State) { k(st, []Value{Scalar{n}, nilIface}) }},
				alt{And(bad, Eq(left, Int(0))), "read reports an error", func(st *State) { k(st, []Value{Scalar{n}, x.someErr(st)}) }})
		},
		"Write" + rw: func(x *Exec, st *State, w Iface, args []Value, pos token.Pos, k Cont) {
			x.writeTo(st, w, st.seqOf(args[0].(Slice)), pos, func(st *State, n *Term, err Value) { k(st, []Value{Scalar{n}, err}) })
		},
		"ReadByte" + "func() (byte, error)": func(x *Exec, st *State, r Iface, args []Value, pos token.Pos, k Cont) {
			in := st.seqAt("ghost:in", r.Data)
			x.fork(st,
				alt{Ge(Len(in), Int(1)), "the byte asked for arrives", func(st *State) {
					b := Nth(in, Int(0))
					st.consume("ghost:in", r.Data, Int(1))
					k(st, []Value{Scalar{b}, nilIface})
				}},
				alt{Lt(Len(in), Int(1)), "the input ends early", func(st *State) {
					k(st, []Value{Scalar{FreshVar("garbage", SInt, byteRng)}, x.someErr(st)})
				}})
		},
		"Error" + "func() string": func(x *Exec, st *State, r Iface, args []Value, pos token.Pos, k Cont) {
			k(st, one(Scalar{FreshVar("errstr", SInt, nil)}))
		},
	}
	ifaceNatives = ifn
}

func bytesEqual(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
	k(st, one(Scalar{Eq(st.seqOf(args[0].(Slice)), st.seqOf(args[1].(Slice)))}))
}

func readAll(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
	r := asIface(args[0])
	x.must(st, "panic", "method call on nil interface", pos, Ne(r.Tag, Int(0)))
	c, a := x.inLoc(st, r)
	in := st.seqAt(c, a)
	st.setSeq(c, a, EmptySeq)
	s := x.freshSlice(st, types.Typ[types.Uint8], in, false)
	eof := x.eofOf(st, r)
	x.fork(st,
		alt{eof, "", func(st *State) { k(st, []Value{s, nilIface}) }},
		alt{Not(eof), "the reader fails", func(st *State) { k(st, []Value{s, x.someErr(st)}) }})
}

func reflectNew(x *Exec, st *State, args []Value, pos token.Pos, k Cont) {
	i := asIface(args[0])
	x.must(st, "panic", "reflect.New(nil)", pos, Ne(i.Tag, Int(0)))
	i = st.resolve(i)
	mk := func(st *State, t types.Type) {
		p := x.newObject(st, t)
		pt := types.NewPointer(t)
		k(st, one(ReflVal{Iface{Tag: tagOf(pt), Data: p.Addr, Dyn: pt, Val: p}}))
	}
	if tv, ok := i.Val.(TypeVal); ok && tv.T != nil {
		mk(st, tv.T)
		return
	}
	var alts []alt
	rest := True
	for _, c := range st.possible(i.Data) {
		if !c.isInt() || !c.I.IsInt64() {
			continue
		}
		t := tagTypes[int(c.I.Int64())]
		if t == nil || c.I.Sign() == 0 {
			continue
		}
		if _, ok := t.(*types.Named); !ok {
			continue
		}
		e := Eq(i.Data, c)
		rest = And(rest, Not(e))
		alts = append(alts, alt{e, "reflect.New of " + typeKey(t), func(st *State) { mk(st, t) }})
	}
	if os.Getenv("GOCV_DEBUGR") != "" {
		fmt.Fprintln(os.Stderr, "reflect.New", i.Data, len(alts), rest)
		for _, h := range st.path {
			fmt.Fprintln(os.Stderr, "   ", h)
		}
	}
	if len(alts) == 0 {
		panic(unsupportedErr{"reflect.New of an unknown type"})
	}
	if !provableAt(st, Not(rest)) {
		panic(unsupportedErr{"reflect.New of an unknown type"})
	}
	x.fork(st, alts...)
}

var _ = fmt.Sprint
var _ ssa.Value
