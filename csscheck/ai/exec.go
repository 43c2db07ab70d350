package ai

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Zero is the zero value of a type.
func (m *Machine) Zero(st *State, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return K(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return Tag{"0"}
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return Nil{}
		}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = m.Zero(st, u.Field(i).Type())
		}
		return StructV{f}
	case *types.Array:
		if u.Len() <= 256 {
			f := make([]Value, u.Len())
			for i := range f {
				f[i] = m.Zero(st, u.Elem())
			}
			return StructV{f}
		}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = m.Zero(st, u.At(i).Type())
		}
		return TupleV{f}
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return Nil{}
	}
	return Top{}
}

// Unknown is an unknown value of a type, with identity.
func (st *State) Unknown(t types.Type, label string) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Int{Base: st.NewSym(SymInfo{T: t, Set: Range(0, 1), Label: label})}
		case u.Info()&types.IsInteger != 0:
			return Int{Base: st.NewSym(SymInfo{T: t, Set: IntRange(u), Label: label})}
		case u.Info()&types.IsString != 0:
			return SymStr(st.NewSym(SymInfo{T: t, Label: label}))
		}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = st.Unknown(u.Field(i).Type(), label+"."+u.Field(i).Name())
		}
		return StructV{f}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = st.Unknown(u.At(i).Type(), label)
		}
		return TupleV{f}
	case *types.Slice:
		l := Int{Base: st.NewSym(SymInfo{T: types.Typ[types.Int], Set: Range(0, maxInt), Label: "len"})}
		id := st.NewObj(&Obj{Kind: List, T: u.Elem(), Len: l, Input: true, Label: label})
		return SliceV{Obj: id, Len: l}
	case *types.Array:
		return Top{}
	}
	return SymV{st.NewSym(SymInfo{T: t, Label: label})}
}

// IntRange is the range of an integer type; nil for the large ones.
func IntRange(b *types.Basic) IntSet {
	switch b.Kind() {
	case types.Uint8:
		return Range(0, 255)
	case types.Int8:
		return Range(-128, 127)
	case types.Uint16:
		return Range(0, 65535)
	case types.Int16:
		return Range(-32768, 32767)
	case types.Uint32:
		return Range(0, math.MaxUint32)
	case types.Int32, types.UntypedRune:
		return Range(math.MinInt32, math.MaxInt32)
	case types.Uint, types.Uint64, types.Uintptr:
		return IntSet{{0, maxInt}}
	}
	return nil
}

func (m *Machine) constant(st *State, c *ssa.Const) Value {
	if c.Value == nil {
		return m.Zero(st, c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return Lit(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return K(n)
			}
			if n, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return K(int64(n))
			}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return Tag{constant.ToFloat(constant.MakeFloat64(f)).ExactString()}
		}
	}
	return Top{}
}

func (m *Machine) exec(st *State) {
	in := st.Blk.Instrs[st.PC]
	next := func() {
		st.PC++
		st.choices, st.choiceIdx = nil, 0
	}
	set := func(v Value) {
		st.setReg(in.(ssa.Value), v)
		next()
	}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		next()
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := st.NewObj(&Obj{Kind: Cell, T: t, V: m.Zero(st, t)})
		set(Ptr{Obj: id})
	case *ssa.BinOp:
		set(st.BinOp(x.Op, st.Get(x.X), st.Get(x.Y), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		v := st.Get(x.X)
		switch x.Op {
		case token.MUL:
			p := st.Deref(v, x.Type())
			set(st.LoadPtr(p, x.Type()))
		case token.NOT:
			switch v := v.(type) {
			case Int:
				if v.IsConst() {
					set(K(1 - v.Off))
				} else {
					set(Bool(!st.DecideBool(v)))
				}
			default:
				set(Bool(!st.DecideBool(v)))
			}
		case token.SUB:
			switch v := v.(type) {
			case Int:
				if v.IsConst() {
					set(K(-v.Off))
				} else {
					set(st.intDef("neg", x.Type(), v))
				}
			case Top:
				set(Top{})
			default:
				set(st.negative(x.Type(), v))
			}
		case token.XOR:
			if i, ok := v.(Int); ok && i.IsConst() {
				set(wrap(K(^i.Off), x.Type()))
			} else {
				set(st.Unknown(x.Type(), "xor"))
			}
		default:
			st.Undecided("operator %s", x.Op)
		}
	case *ssa.Call:
		st.invokeCommon(&x.Call, x, func(n *State, result Value) {
			n.setReg(x, result)
			n.PC++
			n.choices, n.choiceIdx = nil, 0
		})
	case *ssa.Go:
		st.invokeCommon(&x.Call, x, func(n *State, result Value) {
			n.PC++
			n.choices, n.choiceIdx = nil, 0
		})
	case *ssa.Defer:
		fn, args := st.operands(&x.Call)
		st.defers = append(st.defers, deferred{Fn: fn, Args: args, In: x, Call: &x.Call})
		next()
	case *ssa.RunDefers:
		if len(st.defers) == 0 {
			next()
			return
		}
		st.unwinding = true
		st.choices, st.choiceIdx = nil, 0
	case *ssa.ChangeType:
		set(st.Get(x.X))
	case *ssa.ChangeInterface:
		set(st.Get(x.X))
	case *ssa.Convert:
		set(st.Convert(st.Get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(st.Convert(st.Get(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		set(Iface{x.X.Type(), st.Get(x.X)})
	case *ssa.MakeClosure:
		f := FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.B = append(f.B, st.Get(b))
		}
		set(f)
	case *ssa.MakeMap:
		id := st.NewObj(&Obj{Kind: Map, T: x.Type()})
		set(Ptr{Obj: id})
	case *ssa.MakeChan:
		set(SymV{st.NewSym(SymInfo{T: x.Type(), Nil: No})})
	case *ssa.MakeSlice:
		l, ok := st.Get(x.Len).(Int)
		if !ok {
			st.Undecided("length of make")
		}
		if st.DecideLess(l, K(0), false) {
			st.Raise("makeslice: len out of range")
		}
		o := &Obj{Kind: List, T: x.Type().Underlying().(*types.Slice).Elem()}
		if l.IsConst() && l.Off < 64 {
			for i := int64(0); i < l.Off; i++ {
				o.Segs = append(o.Segs, Seg{Elem: m.Zero(st, o.T)})
			}
		} else {
			o.Segs = []Seg{{Rest: true, Tag: "zero"}}
			o.Len = l
		}
		set(SliceV{Obj: st.NewObj(o), Whole: true, Full: x.Cap == x.Len && l != K(0)})
	case *ssa.FieldAddr:
		p := st.Deref(st.Get(x.X), nil)
		set(Ptr{Obj: p.Obj, Path: appendSel(p.Path, Sel{Field: x.Field})})
	case *ssa.Field:
		set(st.field(st.Get(x.X), x.Field, x.Type()))
	case *ssa.IndexAddr:
		set(st.indexAddr(st.Get(x.X), st.Get(x.Index), x.X.Type()))
	case *ssa.Index:
		v := st.Get(x.X)
		idx, ok := st.Get(x.Index).(Int)
		switch v := v.(type) {
		case Str:
			if !ok {
				// An unknown position: taken to be in range.
				set(st.Unknown(x.Type(), "byte"))
				return
			}
			st.checkIndex(idx, st.StrLen(v))
			set(st.StrIndex(v, idx))
		case StructV:
			if !ok {
				st.Undecided("array index")
			}
			st.checkIndex(idx, K(int64(len(v.F))))
			idx = st.ResInt(idx)
			if !idx.IsConst() {
				set(st.Unknown(x.Type(), "element"))
				return
			}
			set(v.F[idx.Off])
		default:
			if ok && st.mayIndexTop() {
				set(st.Unknown(x.Type(), "element"))
				return
			}
			if _, top := v.(Top); top {
				set(st.Unknown(x.Type(), "byte"))
				return
			}
			st.Undecided("index of %T", v)
		}
	case *ssa.Lookup:
		st.lookup(x, set)
	case *ssa.MapUpdate:
		mv, k, v := st.Get(x.Map), st.Get(x.Key), st.Get(x.Value)
		if _, ok := mv.(Nil); ok {
			st.Raise("assignment to entry in nil map")
		}
		if s, ok := mv.(SymV); ok && st.DecideNil(s) {
			st.Raise("assignment to entry in nil map")
		}
		if m.Client.MapUpdate(st, mv, k, v) {
			next()
			return
		}
		p, ok := mv.(Ptr)
		if !ok {
			st.Undecided("update of map %T", mv)
		}
		st.MapSet(p.Obj, k, v)
		next()
	case *ssa.Slice:
		set(st.slice(x))
	case *ssa.Range:
		set(IterV{X: st.Get(x.X)})
	case *ssa.Next:
		st.next(x, set)
	case *ssa.Extract:
		switch t := st.Get(x.Tuple).(type) {
		case TupleV:
			set(t.V[x.Index])
		case Top:
			set(Top{})
		default:
			st.Undecided("extract from %T", t)
		}
	case *ssa.TypeAssert:
		st.typeAssert(x, set)
	case *ssa.Store:
		p := st.Deref(st.Get(x.Addr), nil)
		st.StorePtr(p, st.Get(x.Val))
		next()
	case *ssa.If:
		v := st.Get(x.Cond)
		i := 1
		if st.DecideBool(v) {
			i = 0
		}
		if len(st.choices) > 0 {
			st.Note("%s %v", m.Pos(x), i == 0)
		}
		st.enter(st.Blk.Succs[i])
	case *ssa.Jump:
		st.enter(st.Blk.Succs[0])
	case *ssa.Return:
		var rs []Value
		for _, r := range x.Results {
			rs = append(rs, st.Get(r))
		}
		if len(rs) == 1 {
			st.result = rs[0]
		} else {
			st.result = TupleV{rs}
		}
		m.exit(st)
		panic(parked{})
	case *ssa.Panic:
		st.RaiseValue(st.Get(x.X))
	case *ssa.Send, *ssa.Select:
		st.Undecided("channel operation")
	case *ssa.SliceToArrayPointer:
		st.Undecided("conversion to array pointer")
	default:
		st.Undecided("instruction %T", in)
	}
}

func (st *State) mayIndexTop() bool { return true }

func appendSel(p []Sel, s Sel) []Sel {
	return append(append(make([]Sel, 0, len(p)+1), p...), s)
}

func (st *State) checkIndex(idx, n Int) {
	if st.DecideLess(idx, K(0), false) || !st.DecideLess(idx, n, false) {
		st.Raise("index out of range")
	}
}

func (st *State) field(v Value, f int, t types.Type) Value {
	switch v := v.(type) {
	case StructV:
		return v.F[f]
	case Top:
		return Top{}
	}
	st.Undecided("field of %T", v)
	return nil
}

func (st *State) indexAddr(x, idx Value, t types.Type) Value {
	i, ok := idx.(Int)
	if !ok {
		st.Undecided("index %T", idx)
	}
	switch v := x.(type) {
	case SliceV:
		st.checkIndex(i, st.SliceLen(v))
		i = st.ResInt(i)
		if v.Whole {
			return Ptr{Obj: v.Obj, Path: []Sel{{Elem: true, Idx: i}}}
		}
		return Ptr{Obj: v.Obj, Path: []Sel{{Elem: true, Idx: st.AddInts(i, v.Lo)}}}
	case Nil:
		if _, ok := t.Underlying().(*types.Slice); ok {
			st.Raise("index out of range")
		}
		st.Raise("nil pointer dereference")
	case Ptr, SymV:
		p := st.Deref(v, nil)
		if a, ok := t.Underlying().(*types.Pointer); ok {
			if at, ok := a.Elem().Underlying().(*types.Array); ok {
				st.checkIndex(i, K(at.Len()))
				i = st.ResInt(i)
				if i.IsConst() {
					return Ptr{Obj: p.Obj, Path: appendSel(p.Path, Sel{Field: int(i.Off)})}
				}
				return Ptr{Obj: p.Obj, Path: appendSel(p.Path, Sel{Idx: i, Elem: true})}
			}
		}
	case Str: // bytes
		if at, ok := t.Underlying().(*types.Slice); ok {
			st.checkIndex(i, st.StrLen(v))
			id := st.NewObj(&Obj{Kind: Cell, T: at.Elem(), V: st.StrIndex(v, i)})
			return Ptr{Obj: id}
		}
	case Top:
		id := st.NewObj(&Obj{Kind: Cell, V: Top{}})
		return Ptr{Obj: id}
	}
	st.Undecided("index of %T", x)
	return nil
}

// SliceLen is the length of a slice.
func (st *State) SliceLen(s SliceV) Int {
	if !s.Whole {
		return st.ResInt(s.Len)
	}
	return st.ListLen(s.Obj)
}

// ListLen is the length of a list.
func (st *State) ListLen(id ObjID) Int {
	o := st.objs[id]
	if o.Input {
		return o.Len
	}
	n := Int{}
	for _, s := range o.Segs {
		switch {
		case s.IsElem():
			n = st.AddInts(n, K(1))
		case s.Rest:
			if o.Len != (Int{}) {
				return o.Len
			}
			l := Int{Base: st.NewSym(SymInfo{T: types.Typ[types.Int], Set: IntSet{{int64(s.Min), maxInt}}, Label: "len"})}
			if len(o.Segs) == 1 {
				st.UpdateObj(id, func(o *Obj) { o.Len = l })
			}
			n = st.AddInts(n, l)
		default:
			n = st.AddInts(n, st.M.Client.SegLen(st, s))
		}
	}
	return n
}

// LoadPtr reads through a pointer.
func (st *State) LoadPtr(p Ptr, t types.Type) Value {
	if v, ok := st.M.Client.Load(st, p, t); ok {
		return v
	}
	o := st.objs[p.Obj]
	var v Value
	path := p.Path
	if o.Kind == List {
		if len(path) == 0 {
			st.Undecided("load of a list")
		}
		v = st.ElemAt(p.Obj, path[0].Idx)
		path = path[1:]
	} else {
		v = o.V
	}
	for _, s := range path {
		switch x := st.Resolve(v).(type) {
		case StructV:
			if s.Elem {
				i := st.ResInt(s.Idx)
				if !i.IsConst() {
					return st.Unknown(t, "element")
				}
				v = x.F[i.Off]
				continue
			}
			v = x.F[s.Field]
		case Top:
			return Top{}
		default:
			st.Undecided("field of %T", x)
		}
	}
	return st.Resolve(v)
}

// ElemAt is an element of a list.
func (st *State) ElemAt(id ObjID, idx Int) Value {
	idx = st.ResInt(idx)
	o := st.objs[id]
	if o.Input {
		for _, e := range o.Elems {
			if st.Equal(e.Idx, idx) == Yes {
				return e.V
			}
		}
		for _, e := range o.Elems {
			if st.Equal(e.Idx, idx) == Unknown && st.DecideEqual(e.Idx, idx) {
				return e.V
			}
		}
		v := st.M.Client.NewElem(st, id, idx)
		st.UpdateObj(id, func(o *Obj) {
			o.Elems = append(append([]Elem(nil), o.Elems...), Elem{idx, v})
		})
		return v
	}
	n := Int{}
	for _, s := range o.Segs {
		if s.IsElem() {
			if st.Equal(n, idx) == Yes || st.Equal(n, idx) == Unknown && st.DecideEqual(n, idx) {
				return s.Elem
			}
			n = n.Add(1)
			continue
		}
		break
	}
	// From the end.
	if n := len(o.Segs); n > 0 && o.Segs[n-1].IsElem() {
		l := st.ListLen(id)
		for i := n - 1; i >= 0 && o.Segs[i].IsElem(); i-- {
			l = l.Add(-1)
			if st.Equal(l, idx) == Yes {
				return o.Segs[i].Elem
			}
		}
	}
	// A copy of the start of an input list, then single elements.
	if s := o.Segs; len(s) > 0 && s[0].Of != 0 && s[0].Tag == "" && s[0].Lo == (Int{}) && st.objs[s[0].Of].Input {
		if st.Less(idx, s[0].Hi, false) == Unknown && st.DecideLess(idx, s[0].Hi, false) {
			if v, ok := st.M.Client.SegElem(st, id, s[0], idx); ok {
				return v
			}
		}
		if st.Less(idx, s[0].Hi, false) == No {
			n := s[0].Hi
			for _, s := range s[1:] {
				if !s.IsElem() {
					break
				}
				if st.Equal(n, idx) == Yes || st.Equal(n, idx) == Unknown && st.DecideEqual(n, idx) {
					return s.Elem
				}
				n = n.Add(1)
			}
		}
	}
	for _, s := range o.Segs {
		if !s.IsElem() {
			if v, ok := st.M.Client.SegElem(st, id, s, idx); ok {
				return v
			}
		}
	}
	st.Undecided("element of a list that is not known")
	return nil
}

// StorePtr writes through a pointer.
func (st *State) StorePtr(p Ptr, v Value) {
	st.M.Client.Store(st, p, v)
	if c, ok := st.M.Client.(StoreReplacer); ok {
		v = c.StoreValue(st, p, v)
	}
	st.poke(p, v)
}

// poke changes memory without telling the client.
func (st *State) poke(p Ptr, v Value) {
	o := st.objs[p.Obj]
	path := p.Path
	var upd func(old Value, path []Sel) Value
	upd = func(old Value, path []Sel) Value {
		if len(path) == 0 {
			return v
		}
		switch x := st.Resolve(old).(type) {
		case StructV:
			n := StructV{append([]Value(nil), x.F...)}
			i := path[0].Field
			if path[0].Elem {
				idx := st.ResInt(path[0].Idx)
				if !idx.IsConst() {
					return Top{}
				}
				i = int(idx.Off)
			}
			n.F[i] = upd(x.F[i], path[1:])
			return n
		case Top:
			return Top{}
		default:
			st.Undecided("store to a field of %T", x)
		}
		return nil
	}
	if o.Kind == List {
		if len(path) == 0 {
			st.Undecided("store to a list")
		}
		idx := st.ResInt(path[0].Idx)
		if o.Input {
			nv := v
			if len(path) > 1 {
				nv = upd(st.ElemAt(p.Obj, idx), path[1:])
			}
			st.UpdateObj(p.Obj, func(o *Obj) {
				var es []Elem
				for _, e := range o.Elems {
					if st.Equal(e.Idx, idx) == No {
						es = append(es, e)
					}
				}
				o.Elems = append(es, Elem{idx, nv})
			})
			return
		}
		n := Int{}
		for i, s := range o.Segs {
			if !s.IsElem() {
				break
			}
			if st.DecideEqual(n, idx) {
				nv := v
				if len(path) > 1 {
					nv = upd(s.Elem, path[1:])
				}
				st.UpdateObj(p.Obj, func(o *Obj) {
					o.Segs = append([]Seg(nil), o.Segs...)
					o.Segs[i].Elem = nv
				})
				return
			}
			n = n.Add(1)
		}
		if len(o.Segs) == 1 && o.Segs[0].Rest && o.Segs[0].Tag == "zero" && len(path) == 1 && st.M.Client.MapUpdate(st, SliceV{Obj: p.Obj, Whole: true}, idx, v) {
			return
		}
		st.Undecided("store to an element that is not known")
	}
	nv := upd(o.V, path)
	st.UpdateObj(p.Obj, func(o *Obj) { o.V = nv })
}

// ---- maps

func (st *State) lookup(x *ssa.Lookup, set func(Value)) {
	mv, k := st.Get(x.X), st.Get(x.Index)
	if s, ok := mv.(Str); ok {
		idx, ok := k.(Int)
		if !ok {
			set(st.Unknown(x.Type(), "byte"))
			return
		}
		st.checkIndex(idx, st.StrLen(s))
		set(st.StrIndex(s, idx))
		return
	}
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		set(st.Unknown(x.Type(), "byte"))
		return
	}
	result := func(v Value, ok Value) {
		if x.CommaOk {
			set(TupleV{[]Value{v, ok}})
			return
		}
		set(v)
	}
	if _, ok := mv.(Nil); ok {
		result(st.M.Zero(st, mt.Elem()), Bool(false))
		return
	}
	if v, ok, handled := st.M.Client.MapLookup(st, mv, k, mt); handled {
		if i, isInt := ok.(Int); isInt && i.IsConst() && i.Off == 0 {
			v = st.M.Zero(st, mt.Elem())
		}
		result(v, ok)
		return
	}
	switch p := mv.(type) {
	case Ptr:
		v, ok := st.MapGet(p.Obj, k)
		if !ok {
			result(st.M.Zero(st, mt.Elem()), Bool(false))
			return
		}
		result(v, Bool(true))
	case SymV, Top:
		if st.DecideTop() {
			result(st.Unknown(mt.Elem(), "map element"), Bool(true))
			return
		}
		result(st.M.Zero(st, mt.Elem()), Bool(false))
	default:
		st.Undecided("lookup in %T", mv)
	}
}

// MapGet looks a key up.
func (st *State) MapGet(id ObjID, k Value) (Value, bool) {
	o := st.objs[id]
	for i := len(o.Entries) - 1; i >= 0; i-- {
		e := o.Entries[i]
		if st.DecideSame(e.K, k) {
			if e.V == nil {
				return nil, false // deleted
			}
			return e.V, true
		}
	}
	if o.Other {
		mt := o.T.Underlying().(*types.Map)
		if st.DecideTop() {
			v := st.Unknown(mt.Elem(), "map element")
			st.UpdateObj(id, func(o *Obj) { o.Entries = append([]Entry{{k, v}}, o.Entries...) })
			return v, true
		}
		st.UpdateObj(id, func(o *Obj) { o.Entries = append([]Entry{{k, nil}}, o.Entries...) })
	}
	return nil, false
}

// MapSet stores an entry; a nil value deletes it.
func (st *State) MapSet(id ObjID, k, v Value) {
	var es []Entry
	for _, e := range st.objs[id].Entries {
		if !st.DecideSame(e.K, k) {
			es = append(es, e)
		}
	}
	if v != nil || st.objs[id].Other {
		es = append(es, Entry{k, v})
	}
	st.UpdateObj(id, func(o *Obj) { o.Entries = es })
}

// DecideSame splits on the equality of two values of the same type.
func (st *State) DecideSame(a, b Value) bool {
	v := st.equal(a, b)
	return st.DecideBool(v)
}

// ---- slices

func (st *State) slice(x *ssa.Slice) Value {
	v := st.Get(x.X)
	lo := K(0)
	if x.Low != nil {
		i, ok := st.Get(x.Low).(Int)
		if !ok {
			return Top{}
		}
		lo = i
	}
	var hi *Int
	if x.High != nil {
		i, ok := st.Get(x.High).(Int)
		if !ok {
			if _, top := st.Get(x.High).(Top); top {
				if _, isStr := v.(Str); isStr {
					// Unknown bounds: an unknown part.
					return SymStr(st.NewSym(SymInfo{T: types.Typ[types.String], Label: "part"}))
				}
			}
			st.Undecided("slice bound")
		}
		hi = &i
	}
	check := func(n Int) {
		h := n
		if hi != nil {
			h = *hi
			if !st.DecideLess(h, n, true) {
				st.Raise("slice bounds out of range")
			}
		}
		if st.DecideLess(lo, K(0), false) || !st.DecideLess(lo, h, true) {
			st.Raise("slice bounds out of range")
		}
	}
	switch s := v.(type) {
	case Str:
		if lo == K(0) && hi == nil {
			return s
		}
		check(st.StrLen(s))
		if c, ok := st.M.Client.(StrSlicer); ok {
			if v, ok := c.SliceHook(st, st.ResStr(s), st.ResInt(lo), hi); ok {
				return v
			}
		}
		return st.StrSlice(s, lo, hi)
	case Nil:
		if _, ok := x.X.Type().Underlying().(*types.Slice); !ok {
			st.Raise("nil pointer dereference")
		}
		if lo == K(0) && (hi == nil || *hi == K(0)) {
			return Nil{}
		}
		st.Raise("slice bounds out of range")
	case Ptr: // array
		o := st.objs[s.Obj]
		arr, ok := st.LoadPtr(s, nil).(StructV)
		if !ok {
			st.Undecided("slice of %T", o.V)
		}
		check(K(int64(len(arr.F))))
		lo = st.ResInt(lo)
		end := int64(len(arr.F))
		if hi != nil {
			h := st.ResInt(*hi)
			if !h.IsConst() {
				st.Undecided("slice bound")
			}
			end = h.Off
		}
		if !lo.IsConst() {
			st.Undecided("slice bound")
		}
		l := &Obj{Kind: List, T: x.Type().Underlying().(*types.Slice).Elem()}
		for _, e := range arr.F[lo.Off:end] {
			l.Segs = append(l.Segs, Seg{Elem: e})
		}
		return SliceV{Obj: st.NewObj(l), Whole: true, Full: end == int64(len(arr.F))}
	case SliceV:
		full := x.Max != nil
		if s.Whole {
			if lo == K(0) && hi == nil {
				s.Full = s.Full || full
				return s
			}
			n := st.SliceLen(s)
			check(n)
			lo = st.ResInt(lo)
			h := n
			if hi != nil {
				h = st.ResInt(*hi)
			}
			o := st.objs[s.Obj]
			if lo == h || st.Equal(lo, h) == Yes {
				// An empty slice; it shares the memory.
				id := st.NewObj(&Obj{Kind: List, T: o.T, Ext: s.Obj})
				return SliceV{Obj: id, Whole: true, Full: full || st.Equal(lo, n) == Yes && s.Full}
			}
			// Leading and trailing elements that are known one by one.
			segs := o.Segs
			for lo.IsConst() && lo.Off > 0 && len(segs) > 0 && segs[0].IsElem() {
				segs = segs[1:]
				lo = lo.Add(-1)
				h = h.Add(-1)
				n = n.Add(-1)
			}
			for len(segs) > 0 && segs[len(segs)-1].IsElem() && st.Equal(h, n) != Yes {
				segs = segs[:len(segs)-1]
				n = n.Add(-1)
			}
			if lo != K(0) || st.Equal(h, n) != Yes {
				st.Undecided("part of a list that is not known")
			}
			id := st.NewObj(&Obj{Kind: List, T: o.T, Segs: segs, Ext: s.Obj})
			return SliceV{Obj: id, Whole: true, Full: full}
		}
		n := st.ResInt(s.Len)
		check(n)
		h := n
		if hi != nil {
			h = st.ResInt(*hi)
		}
		lo = st.ResInt(lo)
		r := SliceV{Obj: s.Obj, Lo: st.AddInts(s.Lo, lo), Full: full || s.Full && hi == nil}
		if lo.IsConst() {
			r.Len = h.Add(-lo.Off)
		} else if lo.Base == h.Base {
			r.Len = K(h.Off - lo.Off)
		} else {
			d := st.NewDef(types.Typ[types.Int], "-", h, lo)
			if st.syms[d].Set == nil {
				st.Update(d, func(i *SymInfo) { i.Set = IntSet{{0, maxInt}} })
			}
			r.Len = Int{Base: d}
		}
		return r
	case Top:
		return Top{}
	}
	st.Undecided("slice of %T", v)
	return nil
}

// SegsOf is the contents of a slice.
func (st *State) SegsOf(v Value) ([]Seg, bool) {
	switch s := st.Resolve(v).(type) {
	case Nil:
		return nil, true
	case SliceV:
		o := st.objs[s.Obj]
		if s.Whole {
			return o.Segs, true
		}
		l := st.ResInt(s.Len)
		if l.IsConst() && l.Off <= 8 && s.Lo.IsConst() {
			var out []Seg
			for i := int64(0); i < l.Off; i++ {
				out = append(out, Seg{Elem: st.ElemAt(s.Obj, s.Lo.Add(i))})
			}
			return out, true
		}
		return []Seg{{Of: s.Obj, Lo: s.Lo, Hi: st.AddInts(s.Lo, s.Len)}}, true
	}
	return nil, false
}

// Append is append(s, more...).
func (st *State) Append(s Value, more []Seg, elem types.Type) Value {
	if len(more) == 0 {
		return s
	}
	switch v := s.(type) {
	case Nil:
		o := &Obj{Kind: List, T: elem, Segs: append([]Seg(nil), more...)}
		return SliceV{Obj: st.NewObj(o), Whole: true}
	case SliceV:
		segs, _ := st.SegsOf(v)
		if c, ok := st.M.Client.(Overwriter); ok && !v.Full {
			c.Overwrites(st, v.Obj)
		}
		if !v.Whole && !v.Full {
			// The elements after the slice may be overwritten.
			if st.Equal(st.AddInts(v.Lo, v.Len), st.objs[v.Obj].Len) != Yes {
				st.M.Client.Store(st, Ptr{Obj: v.Obj, Path: []Sel{{Elem: true, Idx: v.Len}}}, more[0].Elem)
			}
		}
		out := append(append(make([]Seg, 0, len(segs)+len(more)), segs...), more...)
		if v.Whole && !v.Full {
			if ext := st.objs[v.Obj].Ext; ext != 0 && len(st.objs[ext].Segs) > len(segs) {
				// An earlier append from the same slice may use the same memory.
				if st.DecideTop() {
					at := len(segs)
					e := st.objs[ext]
					ok := true
					for i := 0; i <= at && i < len(e.Segs); i++ {
						ok = ok && e.Segs[i].IsElem()
					}
					if !ok && (len(e.Segs) <= at || !e.Segs[at].IsElem()) {
						st.Undecided("two appends to the same slice")
					}
					st.UpdateObj(ext, func(o *Obj) {
						o.Segs = append([]Seg(nil), o.Segs...)
						for i, m := range more {
							if at+i < len(o.Segs) {
								o.Segs[at+i] = m
							}
						}
					})
				}
			}
		}
		id := st.NewObj(&Obj{Kind: List, T: elem, Segs: out})
		if v.Whole && !v.Full {
			st.UpdateObj(v.Obj, func(o *Obj) { o.Ext = id })
		}
		return SliceV{Obj: id, Whole: true}
	}
	st.Undecided("append to %T", s)
	return nil
}

func (st *State) next(x *ssa.Next, set func(Value)) {
	it := st.Get(x.Iter).(IterV)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		if s, ok := st.Resolve(it.X).(Str); ok {
			if c, ok := s.Const(); ok {
				// Unrolled.
				if it.Count >= len(c) {
					set(TupleV{[]Value{Bool(false), K(0), K(0)}})
					return
				}
				for i, r := range c[it.Count:] {
					_ = i
					n := it
					n.Count += len(string(r))
					if r == 0xfffd && !strings.HasPrefix(c[it.Count:], "\ufffd") {
						n.Count = it.Count + 1
					}
					st.setReg(x.Iter, n)
					set(TupleV{[]Value{Bool(true), K(int64(it.Count)), K(int64(r))}})
					return
				}
			}
		}
		str, ok := st.Resolve(it.X).(Str)
		if !ok {
			if st.Choose(2, nil) == 0 {
				set(TupleV{[]Value{Bool(false), K(0), K(0)}})
				return
			}
			set(TupleV{[]Value{Bool(true), Top{}, Int{Base: st.NewSym(SymInfo{T: types.Typ[types.Rune], Set: Range(0, 0x10ffff), Label: "rune"})}}})
			return
		}
		// Every character is taken to be one byte long: positions are those of a text in ASCII.
		pos := st.ResInt(it.Pos)
		if !st.DecideLess(pos, st.StrLen(str), false) {
			set(TupleV{[]Value{Bool(false), K(0), K(0)}})
			return
		}
		r := st.StrIndex(str, pos)
		if i, ok := r.(Int); ok && !st.DecideIn(i, Range(0, 127)) {
			r = Int{Base: st.NewSym(SymInfo{T: types.Typ[types.Rune], Set: Range(128, 0x10ffff), Label: "rune"})}
		}
		n := it
		n.Pos = st.ResInt(pos).Add(1)
		st.setReg(x.Iter, n)
		set(TupleV{[]Value{Bool(true), pos, r}})
		return
	}
	if _, ok := st.Resolve(it.X).(Nil); ok {
		set(TupleV{[]Value{Bool(false), Top{}, Top{}}})
		return
	}
	if mt, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
		if k, v, done, ok := st.M.Client.MapNext(st, st.Resolve(it.X), mt); ok {
			if st.DecideBool(done) {
				set(TupleV{[]Value{Bool(false), Top{}, Top{}}})
				return
			}
			set(TupleV{[]Value{Bool(true), k, v}})
			return
		}
	}
	if p, ok := st.Resolve(it.X).(Ptr); ok && !st.objs[p.Obj].Other && len(st.objs[p.Obj].Entries) == 0 && st.objs[p.Obj].Data == nil {
		set(TupleV{[]Value{Bool(false), Top{}, Top{}}})
		return
	}
	if st.Choose(2, nil) == 0 {
		set(TupleV{[]Value{Bool(false), Top{}, Top{}}})
		return
	}
	mk := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return Top{}
		}
		return st.Unknown(tt.At(i).Type(), "map element")
	}
	set(TupleV{[]Value{Bool(true), mk(1), mk(2)}})
}

func (st *State) typeAssert(x *ssa.TypeAssert, set func(Value)) {
	v := st.Get(x.X)
	t := x.AssertedType
	iface, toIface := t.Underlying().(*types.Interface)
	ok := false
	var res Value
	switch y := v.(type) {
	case Nil:
	case Iface:
		if toIface {
			ok = types.Implements(y.T, iface)
			res = y
		} else {
			ok = types.Identical(y.T, t)
			res = y.V
		}
	case SymV:
		if !st.DecideNil(y) {
			if toIface {
				ok, res = st.assertIface(y, iface)
			} else {
				ok = st.DecideDyn(y.S, t)
				if ok {
					res = st.syms[y.S].Inner
				}
			}
		}
	case Top:
		ok = st.DecideTop()
		res = st.Unknown(t, "asserted")
	default:
		st.Undecided("type assertion on %T", v)
	}
	if ok {
		res = st.Resolve(res)
	}
	switch {
	case x.CommaOk && ok:
		set(TupleV{[]Value{res, Bool(true)}})
	case x.CommaOk:
		set(TupleV{[]Value{st.M.Zero(st, t), Bool(false)}})
	case ok:
		set(res)
	default:
		st.Raise("failed type assertion")
	}
}

func (st *State) assertIface(s SymV, iface *types.Interface) (bool, Value) {
	si := st.syms[s.S]
	if st0, ok := si.T.Underlying().(*types.Interface); ok && types.Implements(st0, iface) {
		return true, s
	}
	cands := st.Remaining(s.S)
	if st.M.Client.Candidates(st, s.S) == nil {
		d := st.NewDef(types.Typ[types.Bool], "fact", Tag{"implements " + iface.String()}, s)
		if st.syms[d].Set == nil {
			st.Update(d, func(i *SymInfo) { i.Set = Range(0, 1) })
		}
		return st.DecideBool(Int{Base: d}), s
	}
	yes, no := 0, 0
	for _, c := range cands {
		if types.Implements(c, iface) {
			yes++
		} else {
			no++
		}
	}
	if no == 0 {
		return true, s
	}
	if yes == 0 {
		return false, nil
	}
	// Split by type.
	for _, c := range cands {
		if st.DecideDyn(s.S, c) {
			return types.Implements(c, iface), Iface{c, st.syms[s.S].Inner}
		}
	}
	st.Infeasible()
	return false, nil
}

// Convert is a conversion.
func (st *State) Convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case fb != nil && tb != nil:
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			i, ok := v.(Int)
			if !ok {
				return Top{}
			}
			if i.IsConst() {
				return wrap(i, to)
			}
			if r := IntRange(tb); r != nil && !st.set(i).Subset(r) {
				if lo, hi := st.set(i).Bounds(); tb.Kind() == types.Int32 || lo < 0 || hi > 255 {
					if tb.Kind() == types.Int32 {
						// Positions: taken not to overflow.
						return i
					}
				}
				d := st.NewDef(to, "conv", i)
				if st.syms[d].Set == nil {
					st.Update(d, func(x *SymInfo) { x.Set = r })
				}
				return Int{Base: d}
			}
			return i
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if i, ok := v.(Int); ok {
				i = st.ResInt(i)
				if i.IsConst() {
					return Lit(string(rune(i.Off)))
				}
				return SymStr(st.NewDef(types.Typ[types.String], "runestr", i))
			}
			return SymStr(st.NewSym(SymInfo{T: types.Typ[types.String]}))
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case tb.Info()&types.IsFloat != 0:
			if i, ok := v.(Int); ok && i.IsConst() {
				return Tag{constant.MakeInt64(i.Off).ExactString()}
			}
			if fb.Info()&types.IsFloat != 0 {
				return v
			}
			return SymV{st.NewDef(to, "float", v)}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return Int{Base: st.NewDef(to, "int", v)}
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		return v // to bytes or runes: the same text
	case tb != nil && tb.Info()&types.IsString != 0:
		switch v := v.(type) {
		case Str:
			return v
		case Nil:
			return Str{}
		}
		return SymStr(st.NewSym(SymInfo{T: types.Typ[types.String], Label: "text"}))
	}
	return v
}

func wrap(i Int, t types.Type) Int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || !i.IsConst() {
		return i
	}
	switch b.Kind() {
	case types.Int8:
		return K(int64(int8(i.Off)))
	case types.Uint8:
		return K(int64(uint8(i.Off)))
	case types.Int16:
		return K(int64(int16(i.Off)))
	case types.Uint16:
		return K(int64(uint16(i.Off)))
	case types.Int32:
		return K(int64(int32(i.Off)))
	case types.Uint32:
		return K(int64(uint32(i.Off)))
	}
	return i
}

func (st *State) intDef(op string, t types.Type, args ...Value) Value {
	d := st.NewDef(t, op, args...)
	return Int{Base: d}
}

// BinOp is a binary operation.
func (st *State) BinOp(op token.Token, x, y Value, xt, t types.Type) Value {
	switch op {
	case token.EQL:
		return st.equal(x, y)
	case token.NEQ:
		v := st.equal(x, y)
		if i, ok := v.(Int); ok && i.IsConst() {
			return K(1 - i.Off)
		}
		return Bool(!st.DecideBool(v))
	}
	if _, ok := x.(Top); ok {
		return st.topOf(op, t)
	}
	if _, ok := y.(Top); ok {
		return st.topOf(op, t)
	}
	switch a := x.(type) {
	case Int:
		b, ok := y.(Int)
		if !ok {
			break
		}
		return st.intOp(op, a, b, t)
	case Str:
		b, ok := y.(Str)
		if !ok {
			break
		}
		if op == token.ADD {
			return Concat(st.ResStr(a), st.ResStr(b))
		}
		ca, aok := st.ResStr(a).Const()
		cb, bok := st.ResStr(b).Const()
		if aok && bok {
			switch op {
			case token.LSS:
				return Bool(ca < cb)
			case token.LEQ:
				return Bool(ca <= cb)
			case token.GTR:
				return Bool(ca > cb)
			case token.GEQ:
				return Bool(ca >= cb)
			}
		}
		return Top{}
	case Tag, SymV:
		// floats
		ta, aok := x.(Tag)
		tb, bok := y.(Tag)
		if aok && bok {
			if v, ok := floatOp(op, ta, tb); ok {
				return v
			}
		}
		switch op {
		case token.SUB:
			// x - c is x + (-c).
			if v, ok := floatOp(op, Tag{"0"}, tb); bok && ok {
				return st.commutative(token.ADD, t, x, v)
			}
			return st.commutative(token.ADD, t, x, st.negative(t, y))
		case token.QUO:
			return SymV{st.NewDef(t, op.String(), x, y)}
		case token.ADD, token.MUL:
			return st.commutative(op, t, x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.LSS || op == token.LEQ {
				// x < y is y > x.
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ}[op]
				x, y, aok, bok, ta, tb = y, x, bok, aok, tb, ta
			}
			if op == token.GTR && bok && ta != tb && floatOf(tb).Kind() != constant.Unknown && constant.Compare(floatOf(tb), token.EQL, maxFloat) {
				return st.infinite(x, 1)
			}
			if op == token.GTR && aok && constant.Compare(floatOf(ta), token.EQL, constant.UnaryOp(token.SUB, maxFloat, 0)) {
				return st.infinite(y, -1)
			}
			d := st.NewDef(t, "fact", Tag{op.String()}, x, y)
			if st.syms[d].Set == nil {
				st.Update(d, func(i *SymInfo) { i.Set = Range(0, 1) })
			}
			return Int{Base: d}
		}
	}
	st.Undecided("%T %s %T", x, op, y)
	return nil
}

var maxFloat = constant.MakeFloat64(math.MaxFloat64)

// infinite says whether a float is infinite, with a sign. (Not a number is not.)
func (st *State) infinite(x Value, sign int64) Value {
	if _, ok := x.(Tag); ok {
		return Bool(false)
	}
	fact := func(args ...Value) Int {
		d := st.NewDef(types.Typ[types.Bool], "fact", args...)
		if st.syms[d].Set == nil {
			st.Update(d, func(i *SymInfo) { i.Set = Range(0, 1) })
		}
		return Int{Base: d}
	}
	if !st.DecideBool(fact(Tag{"math.IsInf"}, x, K(0))) {
		return Bool(false)
	}
	positive := st.DecideBool(fact(Tag{"math.IsInf"}, x, K(1)))
	return Bool(positive == (sign > 0))
}

// negative is -x of a float.
func (st *State) negative(t types.Type, x Value) Value {
	if s, ok := x.(SymV); ok {
		if d := st.syms[s.S].Def; d != nil && d.Op == "negative" {
			return d.Args[0]
		}
	}
	if t, ok := x.(Tag); ok && t != (Tag{"0"}) {
		if v, ok := floatOp(token.SUB, Tag{"0"}, t); ok {
			return v
		}
	}
	return SymV{st.NewDef(t, "negative", x)}
}

// commutative is a term whose arguments may be swapped.
func (st *State) commutative(op token.Token, t types.Type, x, y Value) Value {
	if st.HasDef(op.String(), y, x) {
		x, y = y, x
	}
	return SymV{st.NewDef(t, op.String(), x, y)}
}

// floatOp computes with constants.
func floatOp(op token.Token, a, b Tag) (Value, bool) {
	va, vb := floatOf(a), floatOf(b)
	if va.Kind() == constant.Unknown || vb.Kind() == constant.Unknown {
		return nil, false
	}
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO:
		if op == token.QUO && constant.Sign(vb) == 0 {
			return nil, false
		}
		f, _ := constant.Float64Val(constant.BinaryOp(va, op, vb))
		return Tag{constant.ToFloat(constant.MakeFloat64(f)).ExactString()}, true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return Bool(constant.Compare(va, op, vb)), true
	}
	return nil, false
}

func floatOf(t Tag) constant.Value {
	r, ok := new(big.Rat).SetString(t.S)
	if !ok {
		return constant.MakeUnknown()
	}
	return constant.ToFloat(constant.Make(r))
}

func (st *State) topOf(op token.Token, t types.Type) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return SymStr(st.NewSym(SymInfo{T: t, Label: "text"}))
	}
	return Top{}
}

func (st *State) intOp(op token.Token, a, b Int, t types.Type) Value {
	a, b = st.ResInt(a), st.ResInt(b)
	switch op {
	case token.ADD:
		return wrap(st.AddInts(a, b), t)
	case token.SUB:
		if b.IsConst() {
			return wrap(a.Add(-b.Off), t)
		}
		if a.Base == b.Base {
			return K(a.Off - b.Off)
		}
		d := st.NewDef(t, "-", a, b)
		if st.syms[d].Set == nil && st.Less(b, a, true) == Yes {
			lo := int64(0)
			if st.Less(b, a, false) == Yes {
				lo = 1
			}
			st.Update(d, func(i *SymInfo) { i.Set = IntSet{{lo, maxInt}} })
			if l, _ := st.set(b).Bounds(); l >= 0 && a.Base != 0 {
				st.addRel(d, a.Base, a.Off-l) // d = a - b <= a - l
			}
		}
		return Int{Base: d}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		x, y, eq := a, b, op == token.LEQ || op == token.GEQ
		if op == token.GTR || op == token.GEQ {
			x, y = b, a
		}
		switch st.Less(x, y, eq) {
		case Yes:
			return Bool(true)
		case No:
			return Bool(false)
		}
		return Bool(st.DecideLess(x, y, eq))
	}
	if a.IsConst() && b.IsConst() {
		x, y := a.Off, b.Off
		switch op {
		case token.MUL:
			return wrap(K(x*y), t)
		case token.QUO, token.REM:
			if y == 0 {
				st.Raise("integer divide by zero")
			}
			if op == token.QUO {
				return wrap(K(x/y), t)
			}
			return wrap(K(x%y), t)
		case token.AND:
			return wrap(K(x&y), t)
		case token.OR:
			return wrap(K(x|y), t)
		case token.XOR:
			return wrap(K(x^y), t)
		case token.AND_NOT:
			return wrap(K(x&^y), t)
		case token.SHL:
			return wrap(K(x<<uint(y)), t)
		case token.SHR:
			return wrap(K(x>>uint(y)), t)
		}
	}
	switch op {
	case token.QUO, token.REM:
		if st.DecideEqual(b, K(0)) {
			st.Raise("integer divide by zero")
		}
	case token.AND, token.OR:
		if isBool(t) {
			x, y := st.DecideBool(a), st.DecideBool(b)
			if op == token.AND {
				return Bool(x && y)
			}
			return Bool(x || y)
		}
	}
	d := st.NewDef(t, op.String(), a, b)
	if st.syms[d].Set == nil {
		la, _ := st.set(a).Bounds()
		lb, hb := st.set(b).Bounds()
		switch {
		case op == token.AND && b.IsConst() && b.Off >= 0:
			st.Update(d, func(i *SymInfo) { i.Set = Range(0, b.Off) })
		case op == token.REM && b.IsConst() && la >= 0:
			st.Update(d, func(i *SymInfo) { i.Set = Range(0, b.Off-1) })
		case (op == token.MUL || op == token.QUO || op == token.SHR) && la >= 0 && lb >= 0:
			st.Update(d, func(i *SymInfo) { i.Set = IntSet{{0, maxInt}} })
		}
		_ = hb
	}
	return Int{Base: d}
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// equal is x == y as a boolean value.
func (st *State) equal(x, y Value) Value {
	x, y = st.Resolve(x), st.Resolve(y)
	if _, ok := x.(Nil); ok {
		x, y = y, x
	}
	if _, ok := y.(Nil); ok {
		switch a := x.(type) {
		case Nil:
			return Bool(true)
		case SymV:
			return Bool(st.DecideNil(a))
		case Top, SliceV:
			return Bool(st.DecideNil(a))
		}
		return Bool(false)
	}
	switch a := x.(type) {
	case Int:
		if b, ok := y.(Int); ok {
			switch st.Equal(a, b) {
			case Yes:
				return Bool(true)
			case No:
				return Bool(false)
			}
			return Bool(st.DecideEqual(a, b))
		}
	case Str:
		if b, ok := y.(Str); ok {
			return Bool(st.DecideStrEqual(a, b))
		}
	case Ptr:
		if b, ok := y.(Ptr); ok {
			if a.Obj == b.Obj {
				return Bool(st.rawKey([]Value{a}) == st.rawKey([]Value{b}))
			}
			if !st.objs[a.Obj].Input || !st.objs[b.Obj].Input {
				return Bool(false)
			}
		}
		if b, ok := y.(SymV); ok {
			if st.syms[b.S].Obj == a.Obj {
				return Bool(true)
			}
		}
	case Iface:
		if b, ok := y.(Iface); ok {
			if !types.Identical(a.T, b.T) {
				return Bool(false)
			}
			return st.equal(a.V, b.V)
		}
	case StructV:
		if b, ok := y.(StructV); ok {
			for i := range a.F {
				if !st.DecideBool(st.equal(a.F[i], b.F[i])) {
					return Bool(false)
				}
			}
			return Bool(true)
		}
	case Tag:
		if b, ok := y.(Tag); ok {
			return Bool(a.S == b.S)
		}
	case SymV:
		if b, ok := y.(SymV); ok && a.S == b.S {
			return Bool(true)
		}
	}
	if containsTop(x) || containsTop(y) {
		return Top{}
	}
	args := []Value{x, y}
	if st.rawKey([]Value{x}) > st.rawKey([]Value{y}) {
		args = []Value{y, x}
	}
	d := st.NewDef(types.Typ[types.Bool], "fact", Tag{"=="}, args[0], args[1])
	if st.syms[d].Set == nil {
		st.Update(d, func(i *SymInfo) { i.Set = Range(0, 1) })
	}
	return Int{Base: d}
}
