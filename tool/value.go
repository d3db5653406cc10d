package main

import (
	"strings"
	"regexp"
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Scalar struct{ T *Term } // bool, integers, strings, floats, maps, channels (ids)
type Ptr struct {
	Root types.Type // type of the object
	Path string     // field path inside it, "" or ".F.G"
	Addr *Term
	Elem types.Type // pointee type
	Arr  *ArrLoc    // element pointers: location of the array
	Idx  *Term
	Sub  string // field path inside the element
}
type ArrLoc struct {
	Comp string // component prefix, e.g. "arr:uint8" or "handshake.AckPacket|.Payload"
	Addr *Term
	Snap *Term // immutable snapshot content (elements of [][]byte)
}
type Slice struct {
	Arr           ArrLoc
	Off, Len, Cap *Term
	Elem          types.Type
}
type Struct struct {
	T      types.Type
	Fields []Value
}
type Array struct {
	T   types.Type
	Seq *Term
}
type Iface struct {
	Tag, Data *Term
	Dyn       types.Type
	Val       Value
}
type Func struct {
	ID   *Term
	Fn   *ssa.Function
	Bind []Value
}
type Tuple []Value
type TypeVal struct{ T types.Type }
type MapIter struct {
	M    *Term
	T    *types.Map
	Done bool
	Key  Value
}

// ---- type helpers

func under(t types.Type) types.Type { return t.Underlying() }
func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}
func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return shortPkg(p.Path()) })
	// aliases of the predeclared types
	if strings.Contains(s, "uint8") || strings.Contains(s, "rune") {
		s = aliasRe.ReplaceAllStringFunc(s, func(m string) string {
			switch m {
			case "uint8":
				return "byte"
			case "rune":
				return "int32"
			}
			return m
		})
	}
	return s
}

var aliasRe = regexp.MustCompile(`[.\w]+`)

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, k := under(t).(*types.Basic)
	if !k {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}
func rngOf(t types.Type) *Rng {
	w, s, ok := intInfo(t)
	if !ok {
		return nil
	}
	if s {
		return &Rng{new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big64(1))}
	}
	return &Rng{big64(0), new(big.Int).Sub(pow2(w), big64(1))}
}
func wrap(t *Term, ty types.Type) *Term {
	w, s, ok := intInfo(ty)
	if !ok {
		return t
	}
	r := rngOf(ty)
	b := bounds(t)
	if b.Lo != nil && b.Hi != nil && b.Lo.Cmp(r.Lo) >= 0 && b.Hi.Cmp(r.Hi) <= 0 {
		return t
	}
	if provable(Sub(t, BigT(r.Lo))) && provable(Sub(BigT(r.Hi), t)) {
		return t
	}
	if !s {
		return Mod(t, BigT(pow2(w)))
	}
	h := BigT(pow2(w - 1))
	return Sub(Mod(Add(t, h), BigT(pow2(w))), h)
}
func isScalar(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Map, *types.Chan:
		return true
	}
	return false
}
func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	_, _, ok = intInfo(s.Elem())
	return ok
}

var ptrRng = &Rng{big64(0), nil}

// numbers of dynamic types (0: nil)
var tagRng = &Rng{big64(0), big64(keyMul - 1)}
var entryPtrRng = &Rng{big64(0), new(big.Int).Sub(BASE, big64(1))}

// ranges of object ids
var idRngs = map[*Rng]bool{entryPtrRng: true}

func below(n *big.Int) *Rng {
	r := &Rng{big64(0), new(big.Int).Sub(n, big64(1))}
	idRngs[r] = true
	return r
}
var lenRng = &Rng{big64(0), maxLen}

type Leaf struct {
	Path string
	Sort *Sort
	Rng  *Rng
	Ptr  bool // holds an object id
}

var leafMemo = map[types.Type][]Leaf{}

// opaque library structs with ghost contents
func opaque(t types.Type) string {
	switch {
	case isNamed(t, "bytes", "Buffer"):
		return "buf"
	case isNamed(t, "bytes", "Reader"):
		return "buf"
	case isNamed(t, "sync", "Mutex"), isNamed(t, "sync", "RWMutex"), isNamed(t, "sync", "Once"):
		return "sync"
	case isNamed(t, "sync", "WaitGroup"):
		return "wg"
	}
	return ""
}

func leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if l, ok := leafMemo[t]; ok {
		return l
	}
	l := leaves0(t)
	leafMemo[t] = l
	return l
}
func leaves0(t types.Type) []Leaf {
	switch opaque(t) {
	case "buf":
		return []Leaf{{".content", SSeq, byteRng, false}, {".alias", SInt, ptrRng, true}, {".taint", SBool, nil, false}}
	case "sync":
		return nil
	case "wg":
		return []Leaf{{".count", SInt, nil, false}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []Leaf{{"", SBool, nil, false}}
		}
		return []Leaf{{"", SInt, rngOf(t), false}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, ptrRng, true}}
	case *types.Interface:
		return []Leaf{{"#tag", SInt, tagRng, false}, {"#data", SInt, ptrRng, true}}
	case *types.Slice:
		return []Leaf{{"#arr", SInt, ptrRng, true}, {"#off", SInt, lenRng, false}, {"#len", SInt, lenRng, false}, {"#cap", SInt, lenRng, false}}
	case *types.Array:
		return elemLeaves(u.Elem())
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, Leaf{"." + fieldName(u, i) + l.Path, l.Sort, l.Rng, l.Ptr})
			}
		}
		return out
	case *types.Tuple:
		return nil
	}
	panic(unsupportedErr{"type " + t.String()})
}
func fieldName(u *types.Struct, i int) string {
	n := u.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

type unsupportedErr struct{ msg string }

// leaves of a slice element type (contents of backing arrays)
func elemLeaves(t types.Type) []Leaf {
	if isByteSlice(t) {
		return []Leaf{{"", SSSeq, byteRng, false}}
	}
	ls := leaves(t)
	var out []Leaf
	for _, l := range ls {
		if l.Sort != SInt {
			if l.Sort == SBool {
				out = append(out, Leaf{l.Path, SSeq, &Rng{big64(0), big64(1)}, false})
				continue
			}
			panic(unsupportedErr{"slice of " + t.String()})
		}
		out = append(out, Leaf{l.Path, SSeq, l.Rng, l.Ptr})
	}
	return out
}

func comp(root types.Type, path string) string {
	if a, ok := under(root).(*types.Array); ok {
		return arrComp(a.Elem()) + path
	}
	return typeKey(root) + "|" + path
}
func zeroElems(l Leaf, n int64) *Term {
	if l.Sort == SSSeq {
		var us []*Term
		for i := int64(0); i < n; i++ {
			us = append(us, Unit(EmptySeq))
		}
		return Concat(SSSeq, us...)
	}
	return Zeros(Int(n))
}
func arrComp(elem types.Type) string           { return "arr:" + typeKey(under2(elem)) }

// named byte types share the representation of their underlying type
func under2(t types.Type) types.Type {
	if b, ok := under(t).(*types.Basic); ok {
		return b
	}
	return t
}

// ---- type tags for interfaces

var tagIDs = map[string]int{}
var tagTypes = map[int]types.Type{}

func tagOf(t types.Type) *Term {
	k := typeKey(t)
	id, ok := tagIDs[k]
	if !ok {
		id = len(tagIDs) + 1
		tagIDs[k] = id
		tagTypes[id] = t
	}
	return Int(int64(id))
}

var strIDs = map[string]int{}
var strVals = map[int]string{}

func strConst(s string) *Term {
	if s == "" {
		return Int(0)
	}
	id, ok := strIDs[s]
	if !ok {
		id = len(strIDs) + 1
		strIDs[s] = id
		strVals[id] = s
	}
	return Int(int64(id))
}

var funcIDs = map[*ssa.Function]int{}
var funcByID = map[int]*ssa.Function{}

func funcID(f *ssa.Function) *Term {
	id, ok := funcIDs[f]
	if !ok {
		id = len(funcIDs) + 1
		funcIDs[f] = id
		funcByID[id] = f
	}
	return Int(int64(id))
}

var nilIface = Iface{Tag: Int(0), Data: Int(0)}

func zero(t types.Type) Value {
	switch opaque(t) {
	case "buf", "sync", "wg":
		return Struct{T: t}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return Scalar{False}
		}
		return Scalar{Int(0)}
	case *types.Map, *types.Chan:
		return Scalar{Int(0)}
	case *types.Pointer:
		return Ptr{Root: u.Elem(), Addr: Int(0), Elem: u.Elem()}
	case *types.Signature:
		return Func{ID: Int(0)}
	case *types.Interface:
		return nilIface
	case *types.Slice:
		return Slice{Arr: ArrLoc{Comp: arrComp(u.Elem()), Addr: Int(0)}, Off: Int(0), Len: Int(0), Cap: Int(0), Elem: u.Elem()}
	case *types.Array:
		if isScalar(u.Elem()) {
			return Array{t, Zeros(Int(u.Len()))}
		}
		return Array{T: t}
	case *types.Struct:
		s := Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.Fields = append(s.Fields, zero(u.Field(i).Type()))
		}
		return s
	}
	panic(unsupportedErr{"zero " + t.String()})
}

// toLeaves flattens a value of type t into leaf terms (order of leaves(t)).
func (st *State) toLeaves(v Value, t types.Type) []*Term {
	switch opaque(t) {
	case "buf":
		return []*Term{EmptySeq, Int(0), False}
	case "sync":
		return nil
	case "wg":
		return []*Term{Int(0)}
	}
	switch x := v.(type) {
	case Scalar:
		return []*Term{x.T}
	case Ptr:
		if x.Path != "" || x.Arr != nil {
			panic(unsupportedErr{"interior pointer stored in memory"})
		}
		return []*Term{x.Addr}
	case Func:
		return []*Term{st.funcTerm(x)}
	case Iface:
		return []*Term{x.Tag, st.ifaceData(x)}
	case Slice:
		if x.Arr.Snap != nil || x.Arr.Comp != arrComp(x.Elem) {
			panic(unsupportedErr{"slice of an interior array stored in memory"})
		}
		return []*Term{x.Arr.Addr, x.Off, x.Len, x.Cap}
	case Array:
		if x.Seq == nil {
			u := under(t).(*types.Array)
			var out []*Term
			for _, l := range leaves(t) {
				out = append(out, zeroElems(l, u.Len()))
			}
			return out
		}
		return []*Term{x.Seq}
	case Struct:
		u := under(t).(*types.Struct)
		var out []*Term
		for i := range x.Fields {
			out = append(out, st.toLeaves(x.Fields[i], u.Field(i).Type())...)
		}
		return out
	}
	panic(unsupportedErr{fmt.Sprintf("toLeaves %T of %s", v, t)})
}
func (st *State) funcTerm(f Func) *Term {
	if f.Fn == nil {
		return f.ID
	}
	if len(f.Bind) == 0 {
		return funcID(f.Fn)
	}
	// closures: an id of their own, recorded
	id := st.x.alloc(st)
	st.x.closures[id.I.String()] = f
	return id
}
func (st *State) ifaceData(x Iface) *Term {
	if x.Dyn == nil {
		return x.Data
	}
	switch v := x.Val.(type) {
	case Scalar:
		if v.T.Sort == SInt {
			return v.T
		}
		return Ite(v.T, Int(1), Int(0))
	case Ptr:
		if v.Path == "" && v.Arr == nil {
			return v.Addr
		}
		// identity of an interior pointer
		if v.Arr == nil {
			return App("interior:"+comp(v.Root, v.Path), SInt, ptrRng, v.Addr)
		}
	case Func:
		return st.funcTerm(v)
	case TypeVal:
		return tagOf(v.T)
	}
	if x.Data != nil {
		return x.Data
	}
	return FreshVar("box", SInt, ptrRng)
}

// fromLeaves rebuilds a value of type t from leaf terms.
func (st *State) fromLeaves(ts []*Term, t types.Type) Value {
	v, rest := st.fromL(ts, t)
	if len(rest) != 0 {
		panic("fromLeaves")
	}
	return v
}
func (st *State) fromL(ts []*Term, t types.Type) (Value, []*Term) {
	t = types.Unalias(t)
	switch opaque(t) {
	case "buf":
		return Struct{T: t}, ts[3:]
	case "sync":
		return Struct{T: t}, ts
	case "wg":
		return Struct{T: t}, ts[1:]
	}
	switch u := under(t).(type) {
	case *types.Basic, *types.Map, *types.Chan:
		return Scalar{ts[0]}, ts[1:]
	case *types.Pointer:
		return Ptr{Root: u.Elem(), Addr: ts[0], Elem: u.Elem()}, ts[1:]
	case *types.Signature:
		return st.funcVal(ts[0]), ts[1:]
	case *types.Interface:
		return st.mkIface(ts[0], ts[1]), ts[2:]
	case *types.Slice:
		return Slice{Arr: ArrLoc{Comp: arrComp(u.Elem()), Addr: ts[0]}, Off: ts[1], Len: ts[2], Cap: ts[3], Elem: u.Elem()}, ts[4:]
	case *types.Array:
		n := len(leaves(t))
		if !isScalar(u.Elem()) {
			return Array{T: t}, ts[n:]
		}
		return Array{t, ts[0]}, ts[1:]
	case *types.Struct:
		s := Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ts = st.fromL(ts, u.Field(i).Type())
			s.Fields = append(s.Fields, f)
		}
		return s, ts
	}
	panic(unsupportedErr{"fromLeaves " + t.String()})
}
func (st *State) funcVal(id *Term) Value {
	if id.isInt() {
		if f, ok := st.x.closures[id.I.String()]; ok {
			return f
		}
		if id.I.IsInt64() {
			if f, ok := funcByID[int(id.I.Int64())]; ok {
				return Func{ID: id, Fn: f}
			}
		}
	}
	return Func{ID: id}
}
func (st *State) mkIface(tag, data *Term) Value {
	i := Iface{Tag: tag, Data: data}
	if tag.isInt() && tag.I.Sign() > 0 && tag.I.IsInt64() {
		t := tagTypes[int(tag.I.Int64())]
		if t != nil {
			i.Dyn = t
			i.Val = st.unbox(t, data)
		}
	}
	return i
}
func (st *State) unbox(t types.Type, data *Term) Value {
	if isNamedStr(t, "reflect.rtype") {
		if data.isInt() {
			return TypeVal{tagTypes[int(data.I.Int64())]}
		}
		return Scalar{data}
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		return Ptr{Root: u.Elem(), Addr: data, Elem: u.Elem()}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return Scalar{Eq(data, Int(1))}
		}
		return Scalar{data}
	case *types.Map, *types.Chan:
		return Scalar{data}
	case *types.Signature:
		return st.funcVal(data)
	case *types.Struct:
		if u.NumFields() == 0 {
			return Struct{T: t}
		}
	}
	// contents unknown
	return st.x.symbolic(st, t, "unboxed")
}
func isNamedStr(t types.Type, s string) bool { return typeKey(t) == s }

// ---- memory

func (st *State) arrSort(l Leaf) *Sort { return ArrOf(l.Sort) }

// heap array of a component
func (st *State) get(c string, s *Sort, r *Rng) *Term {
	if t, ok := st.heap[c]; ok {
		return t
	}
	vr := r
	if r == ptrRng && st.x.base == "@0" {
		// what the memory holds on entry was allocated before
		vr = entryPtrRng
	}
	t := Var(c+st.x.base, s, vr)
	if st.x.compVar[c] == nil {
		st.x.compVar[c] = t
		st.x.compLeaf[c] = r
	}
	return t
}
func (st *State) set(c string, t *Term) {
	st.heap[c] = t
}

func (st *State) loadLeaf(c string, l Leaf, addr *Term) *Term {
	v := Select(st.get(c, ArrOf(l.Sort), l.Rng), addr)
	return v
}

// load through a pointer
func (st *State) load(p Ptr) Value {
	if p.Arr != nil {
		return st.loadElem(*p.Arr, p.Idx, p.Sub, p.Elem)
	}
	ls := leaves(p.Elem)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = st.loadLeaf(comp(p.Root, p.Path+l.Path), l, p.Addr)
		if l.Ptr {
			st.ptrFact(ts[i])
		}
	}
	v := st.fromLeaves(ts, p.Elem)
	st.typeFacts(v, p.Elem)
	return v
}

// every object id is below the allocation counter
func (st *State) ptrFact(t *Term) {
	if t.isInt() {
		return
	}
	st.assume(Lt(t, BigT(st.ctr)))
}

func (st *State) typeFacts(v Value, t types.Type) {
	switch x := v.(type) {
	case Slice:
		if x.Arr.Snap == nil {
			st.sliceFacts(x)
		}
	case Struct:
		if opaque(t) != "" {
			return
		}
		u := under(t).(*types.Struct)
		for i, f := range x.Fields {
			st.typeFacts(f, u.Field(i).Type())
		}
	case Array:
		if x.Seq != nil {
			st.assume(Eq(Len(x.Seq), Int(under(x.T).(*types.Array).Len())))
		}
	}
}
func (st *State) sliceFacts(x Slice) {
	st.assume(Ge0(x.Off))
	st.assume(Ge0(x.Len))
	st.assume(Le(x.Len, x.Cap))
	for _, l := range elemLeaves(x.Elem) {
		c := Select(st.get(x.Arr.Comp+l.Path, ArrOf(l.Sort), l.Rng), x.Arr.Addr)
		st.assume(Le(Add(x.Off, x.Cap), Len(c)))
	}
	if x.Arr.Comp == arrComp(x.Elem) {
		st.assume(Implies(Eq(x.Arr.Addr, Int(0)), Eq(x.Cap, Int(0))))
	}
}

func (st *State) store(p Ptr, v Value) {
	if p.Arr != nil {
		st.storeElem(*p.Arr, p.Idx, p.Sub, p.Elem, v)
		return
	}
	ls := leaves(p.Elem)
	if a, ok := v.(Array); ok && a.Seq == nil {
		for _, l := range ls {
			c := comp(p.Root, p.Path+l.Path)
			st.set(c, Store(st.get(c, ArrOf(l.Sort), l.Rng), p.Addr, zeroElems(l, under(p.Elem).(*types.Array).Len())))
		}
		return
	}
	ts := st.toLeaves(v, p.Elem)
	for i, l := range ls {
		c := comp(p.Root, p.Path+l.Path)
		st.set(c, Store(st.get(c, ArrOf(l.Sort), l.Rng), p.Addr, ts[i]))
	}
}

// contents of an array location, per element leaf
func (st *State) arrContent(a ArrLoc, l Leaf) *Term {
	if a.Snap != nil {
		return a.Snap
	}
	return Select(st.get(a.Comp+l.Path, ArrOf(l.Sort), l.Rng), a.Addr)
}
func (st *State) setArrContent(a ArrLoc, l Leaf, v *Term) {
	if a.Snap != nil {
		panic(unsupportedErr{"write to a retained byte slice"})
	}
	c := a.Comp + l.Path
	st.set(c, Store(st.get(c, ArrOf(l.Sort), l.Rng), a.Addr, v))
}
func (st *State) loadElem(a ArrLoc, idx *Term, sub string, t types.Type) Value {
	if isByteSlice(t) {
		el := elemLeaves(t)[0]
		s := Nth(st.arrContent(a, el), idx)
		cap := FreshVar("snapcap", SInt, lenRng)
		v := Slice{Arr: ArrLoc{Comp: "snap", Snap: s, Addr: FreshVar("snaparr", SInt, ptrRng)}, Off: Int(0), Len: Len(s), Cap: cap, Elem: under(t).(*types.Slice).Elem()}
		st.assume(Le(v.Len, cap))
		return v
	}
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		q := Leaf{sub + l.Path, SSeq, l.Rng, l.Ptr}
		if l.Sort == SBool {
			q.Rng = &Rng{big64(0), big64(1)}
		}
		e := Nth(st.arrContent(a, q), idx)
		if l.Sort == SBool {
			e = Eq(e, Int(1))
		}
		if l.Ptr {
			st.ptrFact(e)
		}
		ts[i] = e
	}
	v := st.fromLeaves(ts, t)
	st.typeFacts(v, t)
	return v
}
func (st *State) storeElem(a ArrLoc, idx *Term, sub string, t types.Type, v Value) {
	if isByteSlice(t) {
		el := elemLeaves(t)[0]
		c := st.arrContent(a, el)
		st.setArrContent(a, el, Splice(c, idx, Unit(st.snapshot(v.(Slice)))))
		return
	}
	ls := leaves(t)
	ts := st.toLeaves(v, t)
	for i, l := range ls {
		q := Leaf{sub + l.Path, SSeq, l.Rng, l.Ptr}
		e := ts[i]
		if l.Sort == SBool {
			e = Ite(e, Int(1), Int(0))
			q.Rng = &Rng{big64(0), big64(1)}
		}
		c := st.arrContent(a, q)
		st.setArrContent(a, q, Splice(c, idx, Unit(e)))
	}
}

// contents of a slice (single-leaf element types)
func (st *State) seqOf(s Slice) *Term {
	ls := elemLeaves(s.Elem)
	if len(ls) != 1 {
		panic(unsupportedErr{"contents of slice of " + s.Elem.String()})
	}
	return st.seqOfLeaf(s, ls[0])
}
func (st *State) seqOfLeaf(s Slice, l Leaf) *Term {
	c := st.arrContent(s.Arr, l)
	if s.Len == Len(c) && s.Off.isInt() && s.Off.I.Sign() == 0 {
		return c
	}
	return Extract(c, s.Off, s.Len)
}

// a byte slice becoming an element of a [][]byte: its content is copied into the
// model, so its array must not change any more.
func (st *State) snapshot(s Slice) *Term {
	c := st.seqOf(s)
	st.freeze(s)
	return c
}
func (st *State) freeze(s Slice) {
	if s.Arr.Snap != nil || (s.Arr.Addr.isInt() && s.Arr.Addr.I.Sign() == 0) {
		return
	}
	c := "frozen:" + s.Arr.Comp
	st.set(c, Store(st.get(c, ArrOf(SBool), nil), s.Arr.Addr, True))
}
func (st *State) isFrozen(a ArrLoc) *Term {
	if a.Snap != nil {
		return True
	}
	return Select(st.get("frozen:"+a.Comp, ArrOf(SBool), nil), a.Addr)
}
