package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pure says whether a function computes on its scalar arguments only: it is summarised without
// the state around the call.
func (m *Machine) pure(fn *ssa.Function) bool {
	if p, ok := m.pures[fn]; ok {
		return p
	}
	if m.pures == nil {
		m.pures = map[*ssa.Function]bool{}
	}
	m.pures[fn] = false // recursive functions are not
	m.pures[fn] = m.isPure(fn)
	return m.pures[fn]
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0
}

func (m *Machine) isPure(fn *ssa.Function) bool {
	if len(fn.FreeVars) > 0 || len(fn.Blocks) == 0 || !m.InRepo(fn) || fn.Recover != nil {
		return false
	}
	for _, p := range fn.Params {
		if !isScalar(p.Type()) {
			return false
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if !isScalar(fn.Signature.Results().At(i).Type()) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if isBackEdge(b, s) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.DebugRef, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.BinOp, *ssa.ChangeType, *ssa.Convert, *ssa.Extract:
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					return false
				}
			case *ssa.Index:
				if !isScalar(x.X.Type()) {
					return false
				}
			case *ssa.Lookup:
				if !isScalar(x.X.Type()) {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() != "len" || !isScalar(x.Call.Args[0].Type()) {
						return false
					}
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil || !m.pure(f) {
					return false
				}
			default:
				return false
			}
			if v, ok := in.(ssa.Value); ok {
				if t, isTuple := v.Type().(*types.Tuple); isTuple {
					for i := 0; i < t.Len(); i++ {
						if !isScalar(t.At(i).Type()) {
							return false
						}
					}
				} else if !isScalar(v.Type()) {
					return false
				}
			}
		}
	}
	return true
}

// join merges the ends of a pure function that differ in the values of one argument only.
func (s *Summary) join() {
	for i := 0; i < len(s.exits); i++ {
		for j := i + 1; j < len(s.exits); {
			if n := union(s.exits[i], s.exits[j]); n != nil {
				s.exits[i] = n
				s.exits = append(s.exits[:j], s.exits[j+1:]...)
				j = i + 1
				continue
			}
			j++
		}
	}
}

func union(a, b *State) *State {
	if len(a.syms) != len(b.syms) || len(a.objs) != len(b.objs) || a.panicking != nil || b.panicking != nil {
		return nil
	}
	diff := 0
	for i := 1; i < len(a.syms); i++ {
		x, y := a.syms[i], b.syms[i]
		if (x == nil) != (y == nil) {
			return nil
		}
		if x == nil || x.Set.Subset(y.Set) && y.Set.Subset(x.Set) {
			continue
		}
		if diff != 0 || x.Set == nil || y.Set == nil {
			return nil
		}
		diff = i
	}
	if diff == 0 {
		return nil
	}
	n, o := a.clone(), b.clone()
	n.Update(Sym(diff), func(i *SymInfo) { i.Set = nil })
	o.Update(Sym(diff), func(i *SymInfo) { i.Set = nil })
	if n.key() != o.key() {
		return nil
	}
	n.Update(Sym(diff), func(i *SymInfo) { i.Set = a.syms[diff].Set.Union(b.syms[diff].Set) })
	n.node = a.node
	return n
}

// IsPure says whether a function computes on its scalar arguments only.
func (m *Machine) IsPure(fn *ssa.Function) bool { return m.pure(fn) }
