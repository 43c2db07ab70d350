package ai

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// operands evaluates the callee and the arguments of a call.
func (st *State) operands(c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, st.Get(a))
	}
	return st.Get(c.Value), args
}

func (st *State) invokeCommon(c *ssa.CallCommon, in ssa.Instruction, cont func(n *State, result Value)) {
	fn, args := st.operands(c)
	st.invoke(fn, args, c, in, false, cont)
}

// FullName is the name by which clients know a function.
func FullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	if org := fn.Origin(); org != nil {
		if o, ok := org.Object().(*types.Func); ok {
			return o.FullName()
		}
	}
	return fn.String()
}

// invoke calls a function value, or a method of an interface value.
func (st *State) invoke(fnv Value, args []Value, c *ssa.CallCommon, in ssa.Instruction, isDefer bool, cont func(n *State, result Value)) {
	m := st.M
	if c.IsInvoke() {
		call := &Call{Method: c.Method, Name: c.Method.FullName(), Args: append([]Value{fnv}, args...), In: in, Common: c}
		if v, ok := m.Client.Call(st, call); ok {
			cont(st, v)
			return
		}
		switch r := fnv.(type) {
		case Nil:
			st.Raise("nil pointer dereference")
		case Iface:
			f := m.Prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
			if f == nil {
				st.Undecided("method %s of %s", c.Method.Name(), TypeName(r.T))
			}
			st.callFn(f, append([]Value{r.V}, args...), nil, c, in, isDefer, cont)
			return
		case SymV:
			if st.DecideNil(r) {
				st.Raise("nil pointer dereference")
			}
			cands := m.Client.Candidates(st, r.S)
			for _, t := range cands {
				if st.DecideDyn(r.S, t) {
					f := m.Prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
					st.callFn(f, append([]Value{st.Resolve(st.syms[r.S].Inner)}, args...), nil, c, in, isDefer, cont)
					return
				}
			}
			if cands != nil {
				st.Infeasible()
			}
		}
		st.Undecided("call of %s on %T", c.Method.FullName(), fnv)
	}
	switch f := fnv.(type) {
	case FuncV:
		if f.Native != "" {
			if strings.HasPrefix(f.Native, "builtin:") {
				st.builtin(f.Native[len("builtin:"):], args, c, cont)
				return
			}
			call := &Call{Name: f.Native, Args: append(append([]Value(nil), f.B...), args...), In: in, Common: c}
			if v, ok := m.Client.Call(st, call); ok {
				cont(st, v)
				return
			}
			st.Undecided("call of %s", f.Native)
		}
		st.callFn(f.Fn, args, f.B, c, in, isDefer, cont)
	case Nil:
		st.Raise("nil pointer dereference")
	default:
		call := &Call{Name: "unknown function", Args: append([]Value{fnv}, args...), In: in, Common: c}
		if v, ok := m.Client.Call(st, call); ok {
			cont(st, v)
			return
		}
		st.Undecided("call of an unknown function")
	}
}

// CallFunc calls a function on behalf of a modelled call.
func (st *State) callFn(fn *ssa.Function, args, free []Value, c *ssa.CallCommon, in ssa.Instruction, isDefer bool, cont func(n *State, result Value)) {
	m := st.M
	call := &Call{Fn: fn, Name: FullName(fn), Args: args, In: in, Common: c}
	if len(free) > 0 {
		call.Args = append(append([]Value(nil), args...), free...)
	}
	if v, ok := m.Client.Call(st, call); ok {
		if cc, ok := v.(CallInstead); ok {
			f, ok := st.Resolve(cc.Fn).(FuncV)
			if !ok || f.Native != "" {
				st.Undecided("call of an unknown function in %s", call.Name)
			}
			st.callFn(f.Fn, cc.Args, f.B, c, in, isDefer, func(n *State, result Value) {
				if cc.Then != nil {
					result = cc.Then(n, result)
				}
				cont(n, result)
			})
			return
		}
		cont(st, v)
		return
	}
	if v, ok := m.standard(st, call); ok {
		cont(st, v)
		return
	}
	if len(fn.Blocks) == 0 || !m.InRepo(fn) {
		st.Undecided("call of %s, which has no model", call.Name)
	}
	var rec Value
	if isDefer {
		rec = Nil{}
		if st.panicking != nil {
			rec = st.panicking
		}
	}
	if cp, ok := m.Client.(Compacter); ok && !m.pure(fn) {
		st.pruneDead()
		all := append(append([]Value(nil), args...), free...)
		if rec != nil {
			all = append(all, rec)
		}
		if ad, ok := m.Client.(Advancer); ok {
			ad.Advance(st, all)
		}
		cp.Compact(st, AtCall, all)
		args, free = all[:len(args)], all[len(args):len(args)+len(free)]
		if rec != nil {
			rec = all[len(all)-1]
		}
		if _, ok := in.(*ssa.Call); ok && in == st.Instr() && !isDefer && c == in.(*ssa.Call).Common() {
			st.mergeCall(in, fn, args, free)
		}
	}
	st.await(fn, args, free, rec, cont)
}

// mergeCall makes equal states at a call one.
func (st *State) mergeCall(in ssa.Instruction, fn *ssa.Function, args, free []Value) {
	regs := st.regs
	st.regs = append(append(append([]Value(nil), regs...), args...), free...)
	n := st.normalise(nil)
	st.regs = regs
	key := fmt.Sprintf("%p %p\n%s", in, fn, n.key())
	m, s := st.M, st.Sum
	node, seen := s.seen[key]
	if !seen {
		node = m.newNode(Node{Sum: s, What: m.PosOf(in.Pos())})
		s.seen[key] = node
	}
	m.edge(Edge{From: st.node, To: node, Prog: st.prog})
	if seen {
		panic(parked{})
	}
	st.node, st.prog = node, false
}

// CallInstead is returned by a client to call another function in place of the modelled one.
type CallInstead struct {
	Fn   Value
	Args []Value
	Then func(n *State, result Value) Value
}

// MapLener is a client that knows the lengths of maps.
type MapLener interface {
	MapLen(st *State, m Value) (Value, bool)
}

func (st *State) builtin(name string, args []Value, c *ssa.CallCommon, cont func(n *State, result Value)) {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case Str:
			cont(st, st.StrLen(v))
		case SliceV:
			cont(st, st.SliceLen(v))
		case Nil:
			cont(st, K(0))
		case Ptr:
			o := st.objs[v.Obj]
			if c, ok := st.M.Client.(MapLener); ok && o.Kind == Map && name == "len" {
				if n, ok := c.MapLen(st, v); ok {
					cont(st, n)
					return
				}
			}
			if o.Kind == Map && !o.Other && o.Data == nil {
				n := int64(0)
				for _, e := range o.Entries {
					if e.V != nil {
						n++
					}
				}
				cont(st, K(n))
				return
			}
			cont(st, Int{Base: st.NewSym(SymInfo{T: types.Typ[types.Int], Set: IntSet{{0, maxInt}}, Label: "len"})})
		default:
			cont(st, Int{Base: st.NewSym(SymInfo{T: types.Typ[types.Int], Set: IntSet{{0, maxInt}}, Label: "len"})})
		}
	case "append":
		if len(args) == 1 {
			cont(st, args[0])
			return
		}
		if s, ok := args[0].(Str); ok { // bytes
			if more, ok := args[1].(Str); ok {
				cont(st, Concat(s, more))
				return
			}
			cont(st, SymStr(st.NewSym(SymInfo{T: types.Typ[types.String], Label: "bytes"})))
			return
		}
		if _, ok := args[1].(Str); ok {
			if _, ok := args[0].(Nil); ok {
				cont(st, args[1])
				return
			}
			cont(st, SymStr(st.NewSym(SymInfo{T: types.Typ[types.String], Label: "bytes"})))
			return
		}
		more, ok := st.SegsOf(args[1])
		if !ok {
			st.Undecided("append of %T", args[1])
		}
		cont(st, st.Append(args[0], more, c.Args[0].Type().Underlying().(*types.Slice).Elem()))
	case "copy":
		st.copyBuiltin(args, c, cont)
	case "delete":
		switch p := args[0].(type) {
		case Nil:
		case Ptr:
			if !st.M.Client.MapUpdate(st, p, args[1], nil) {
				st.MapSet(p.Obj, args[1], nil)
			}
		default:
			if !st.M.Client.MapUpdate(st, p, args[1], nil) {
				st.Undecided("delete from %T", p)
			}
		}
		cont(st, nil)
	case "panic":
		st.RaiseValue(args[0])
	case "recover":
		if st.recoverable == nil {
			cont(st, Nil{})
			return
		}
		v := st.recoverable
		if _, ok := v.(Nil); !ok {
			st.recovered = true
			st.recoverable = Nil{}
		}
		cont(st, v)
	case "print", "println", "close":
		cont(st, nil)
	case "min", "max":
		a, aok := args[0].(Int)
		for _, x := range args[1:] {
			b, bok := x.(Int)
			if !aok || !bok {
				cont(st, Top{})
				return
			}
			if st.DecideLess(a, b, true) == (name == "max") {
				a = b
			}
		}
		cont(st, a)
	case "ssa:wrapnilchk":
		if st.DecideNil(args[0]) {
			st.Raise("nil pointer dereference")
		}
		cont(st, args[0])
	default:
		st.Undecided("builtin %s", name)
	}
}

func (st *State) copyBuiltin(args []Value, c *ssa.CallCommon, cont func(n *State, result Value)) {
	dst, ok := args[0].(SliceV)
	if !ok {
		if _, ok := args[0].(Nil); ok {
			cont(st, K(0))
			return
		}
		st.Undecided("copy to %T", args[0])
	}
	if c, ok := st.M.Client.(Overwriter); ok {
		c.Overwrites(st, dst.Obj)
	}
	segs, ok := st.SegsOf(args[1])
	if !ok {
		st.Undecided("copy from %T", args[1])
	}
	if !dst.Whole {
		st.M.Client.Store(st, Ptr{Obj: dst.Obj, Path: []Sel{{Elem: true, Idx: dst.Lo}}}, Top{})
		st.Undecided("copy into the input")
	}
	var srcLen Int
	if _, ok := args[1].(Nil); !ok {
		srcLen = st.SliceLen(args[1].(SliceV))
	}
	dl := st.SliceLen(dst)
	if st.Equal(dl, srcLen) == Yes {
		st.UpdateObj(dst.Obj, func(o *Obj) { o.Segs = segs; o.Len = Int{} })
		cont(st, dl)
		return
	}
	// A prefix of the destination.
	d := st.objs[dst.Obj].Segs
	n := 0
	for _, s := range segs {
		if !s.IsElem() {
			st.Undecided("copy of an unknown number of elements")
		}
		n++
	}
	if len(d) > 0 && d[0].Rest {
		st.Undecided("copy into a list of unknown length")
	}
	if n > len(d) {
		n = len(d)
	}
	st.UpdateObj(dst.Obj, func(o *Obj) {
		out := append([]Seg(nil), segs[:n]...)
		o.Segs = append(out, o.Segs[n:]...)
	})
	cont(st, K(int64(n)))
}
