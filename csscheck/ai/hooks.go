package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Optional interfaces of clients.

// IntAdder is a client that knows the sums of some symbols.
type IntAdder interface {
	AddHook(st *State, a, b Int) (Int, bool)
}

// StrIndexer is a client that knows the bytes of some strings. The index is in range.
type StrIndexer interface {
	IndexHook(st *State, s Str, idx Int) (Value, bool)
}

// StrSlicer is a client that knows parts of some strings. hi is nil for the end. The bounds are
// in range.
type StrSlicer interface {
	SliceHook(st *State, s Str, lo Int, hi *Int) (Value, bool)
}

// StoreReplacer is a client that replaces what is written to the heap.
type StoreReplacer interface {
	StoreValue(st *State, p Ptr, v Value) Value
}

// Compacter is a client that puts states into a normal form. args may be rewritten in place.
type Compacter interface {
	Compact(st *State, where Where, args []Value)
}

// Advancer is a client that follows the program, at loop heads, before calls and at the ends of
// functions.
type Advancer interface {
	Advance(st *State, args []Value)
}

// Dropper is a client that sees what becomes unreachable when a state is put into normal form.
type Dropper interface {
	// The result says that the ghosts of the state have been changed.
	Dropped(st *State, keepsObj func(ObjID) bool, keepsSym func(Sym) bool) bool
}

// EntryInfo is what was known about a symbol of its caller when the function was entered; nil for
// other symbols.
func (st *State) EntryInfo(s Sym) *SymInfo {
	if int(s) > st.pinSyms || st.Sum == nil {
		return nil
	}
	return st.Sum.entry.syms[s]
}

// SetPanic changes the message of a run-time panic.
func (st *State) SetPanic(msg string) { st.panicking = Iface{rtErrType, TupleV{[]Value{Tag{msg}}}} }

// SetPanicValue changes the value of a panic.
func (st *State) SetPanicValue(v Value) { st.panicking = v }

// SetResult changes the result of a function that is left.
func (st *State) SetResult(v Value) { st.result = v }

// SetReg changes the value of a register.
func (st *State) SetReg(x ssa.Value, v Value) {
	if i, ok := st.M.info(st.Fn).slot[x]; ok {
		st.regs[i] = v
	}
}

// Reg is the value of a register, if there is one.
func (st *State) Reg(v ssa.Value) Value {
	if i, ok := st.M.info(st.Fn).slot[v]; ok {
		return st.regs[i]
	}
	return nil
}

// Clipper is a client that drops precision of relations before states are compared.
type Clipper interface {
	Clip(st *State)
}

// Where says when a state is put into normal form.
type Where int

// Loop heads, calls, and ends of functions.
const (
	AtLoop Where = iota
	AtCall
	AtExit
)

// Substitute rewrites the integers of a state, and of the values given.
func (st *State) Substitute(f func(i Int) Int, more []Value) {
	g := func(i Int, _ role) Int { return f(i) }
	st.substitute(g)
	for i, v := range more {
		more[i] = substVal(v, g)
	}
	if st.panicking != nil {
		st.panicking = substVal(st.panicking, g)
	}
	if st.result != nil {
		st.result = substVal(st.result, g)
	}
}

// Rels are the relations between symbols.
func (st *State) Rels() []Rel { return st.rels }

// SetRels replaces the relations between symbols.
func (st *State) SetRels(rs []Rel) { st.rels = rs }

// Upper is an upper bound of a-b, if there is one.
func (st *State) Upper(a, b Sym) (int64, bool) {
	u := st.upper(a, b)
	return u, u != maxInt
}

// AddRel adds A - B <= c.
func (st *State) AddRel(a, b Sym, c int64) { st.addRel(a, b, c) }

// Pinned says whether a symbol has a meaning outside of the current call.
func (st *State) Pinned(s Sym) bool { return int(s) <= st.pinSyms }

// Syms is the number of symbols.
func (st *State) Syms() int { return len(st.syms) }

// Ints are the integers that a state can still reach, apart from ghosts, and those in more.
func (st *State) Ints(more []Value) []Int {
	c := newCollector(st)
	for _, v := range st.regs {
		if v != nil {
			c.val(v)
		}
	}
	for _, d := range st.defers {
		c.vals(d.Args)
		c.val(d.Fn)
	}
	for _, g := range sortedGlobals(st.globals) {
		c.obj(st.globals[g])
	}
	for _, v := range more {
		c.val(v)
	}
	for i := 1; i <= st.pinObjs; i++ {
		c.obj(ObjID(i))
	}
	c.drain()
	var out []Int
	seen := map[Int]bool{}
	f := func(i Int, _ role) Int {
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
		return i
	}
	add := func(v Value) {
		if v != nil {
			substVal(v, f)
		}
	}
	for _, v := range st.regs {
		add(v)
	}
	for _, v := range more {
		add(v)
	}
	for _, d := range st.defers {
		for _, a := range d.Args {
			add(a)
		}
	}
	for s, si := range st.syms {
		if si == nil || c.sm[s] == 0 {
			continue
		}
		if si.Len != nil {
			add(*si.Len)
		}
		if si.Def != nil {
			for _, a := range si.Def.Args {
				add(a)
			}
		}
	}
	for id, o := range st.objs {
		if o == nil || c.om[id] == 0 {
			continue
		}
		add(o.V)
		for _, s := range o.Segs {
			if s.IsElem() {
				add(s.Elem)
			}
		}
		for _, e := range o.Elems {
			add(e.V)
		}
		for _, e := range o.Entries {
			add(e.V)
		}
	}
	return out
}

// pruneDead drops the registers that are not used behind the current instruction.
func (st *State) pruneDead() {
	in := st.Instr()
	if in == nil || st.unwinding {
		return
	}
	live := st.M.liveAfter(in)
	for i := range st.regs {
		if !live[i] {
			st.regs[i] = nil
		}
	}
}

func (m *Machine) liveAfter(in ssa.Instruction) []bool {
	if l, ok := m.liveAt[in]; ok {
		return l
	}
	if m.liveAt == nil {
		m.liveAt = map[ssa.Instruction][]bool{}
	}
	b := in.Block()
	fi := m.info(b.Parent())
	cur := append([]bool(nil), fi.always...)
	use := func(v ssa.Value) {
		if s, ok := fi.slot[v]; ok {
			cur[s] = true
		}
	}
	for _, s := range b.Succs {
		for j, l := range fi.live[s] {
			if l {
				cur[j] = true
			}
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range s.Preds {
				if p == b {
					use(phi.Edges[k])
				}
			}
		}
	}
	for j := len(b.Instrs) - 1; j >= 0 && b.Instrs[j] != in; j-- {
		x := b.Instrs[j]
		var ops [12]*ssa.Value
		for _, op := range x.Operands(ops[:0]) {
			if *op != nil {
				use(*op)
			}
		}
	}
	m.liveAt[in] = cur
	return cur
}

func substVal(v Value, f func(i Int, r role) Int) Value {
	vals := func(vs []Value) []Value {
		if vs == nil {
			return nil
		}
		out := make([]Value, len(vs))
		for i, v := range vs {
			out[i] = substVal(v, f)
		}
		return out
	}
	switch v := v.(type) {
	case Int:
		return f(v, roleOther)
	case Ptr:
		if len(v.Path) == 0 {
			return v
		}
		p := Ptr{Obj: v.Obj, Path: make([]Sel, len(v.Path))}
		for i, s := range v.Path {
			p.Path[i] = s
			if s.Elem {
				p.Path[i].Idx = f(s.Idx, roleOther)
			}
		}
		return p
	case StructV:
		return StructV{vals(v.F)}
	case Iface:
		return Iface{v.T, substVal(v.V, f)}
	case FuncV:
		return FuncV{v.Fn, vals(v.B), v.Native}
	case SliceV:
		return SliceV{v.Obj, f(v.Lo, roleOther), f(v.Len, roleOther), v.Full, v.Whole}
	case TupleV:
		return TupleV{vals(v.V)}
	case IterV:
		return IterV{substVal(v.X, f), v.Count, f(v.Pos, roleOther)}
	}
	return v
}

// NewInt makes an integer symbol.
func (st *State) NewInt(label string, set IntSet) Int {
	return Int{Base: st.NewSym(SymInfo{T: types.Typ[types.Int], Set: set, Label: label})}
}

// Objs is the number of objects.
func (st *State) Objs() int { return len(st.objs) }
