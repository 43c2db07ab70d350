package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aliasWrites finds writes into memory that a package variable refers to, through
// whatever names: it follows the references held by package variables through locals,
// parameters, results, closures and struct fields (one abstract location per field, per
// element type and per local variable), and returns the instructions that write
// through them outside of initialisers.
func aliasWrites(p *Program) map[*ssa.Global]ssa.Instruction {
	out := map[*ssa.Global]ssa.Instruction{}
	fns := libraryFunctions(p)
	byMethod := map[string][]*ssa.Function{}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range fns {
		if fn.Signature.Recv() != nil {
			byMethod[fn.Name()] = append(byMethod[fn.Name()], fn)
		}
	}
	resolve := func(cc *ssa.CallCommon) []*ssa.Function {
		if cc.IsInvoke() {
			var fs []*ssa.Function
			iface, _ := cc.Value.Type().Underlying().(*types.Interface)
			for _, impl := range byMethod[cc.Method.Name()] {
				if iface != nil && types.Implements(impl.Signature.Recv().Type(), iface) {
					fs = append(fs, impl)
				}
			}
			return fs
		}
		if f := cc.StaticCallee(); f != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, f := range resolve(c.Common()) {
						callers[f] = append(callers[f], c)
					}
				}
			}
		}
	}

	isInit := func(fn *ssa.Function) bool {
		return fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "init" && fn.Signature.Recv() == nil
	}

	var globals []*ssa.Global
	for _, sp := range p.Pkgs {
		if sp.Pkg.Name() == "main" {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.Contains(g.Name(), "$") && holdsReference(deref(g.Type()), 0) {
				globals = append(globals, g)
			}
		}
	}

	for _, g := range globals {
		// addr: values that are addresses of (parts of) the variable itself; ref: values
		// that refer to memory that the variable refers to.
		addr, ref := map[ssa.Value]bool{g: true}, map[ssa.Value]bool{}
		// The types of the values that the references in interfaces have.
		var dynamic []types.Type
		hasDynamic := func(t types.Type) bool {
			for _, d := range dynamic {
				if types.Identical(d, t) {
					return true
				}
			}
			return false
		}
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && rootGlobal(s.Addr, 0) == g {
						if mi, ok := s.Val.(*ssa.MakeInterface); ok {
							dynamic = append(dynamic, mi.X.Type())
						}
					}
				}
			}
		}
		place := map[string]bool{} // fields and elements that may hold such references
		changed := true
		mark := func(m map[ssa.Value]bool, v ssa.Value) {
			if v != nil && !m[v] {
				m[v] = true
				changed = true
			}
		}
		markRef := func(v ssa.Value) {
			if holdsReference(v.Type(), 0) {
				mark(ref, v)
			}
		}
		markPlace := func(k string) {
			if k != "" && !place[k] {
				place[k] = true
				changed = true
			}
		}
		for changed {
			changed = false
			for _, fn := range fns {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.UnOp:
							if x.Op == token.MUL {
								if addr[x.X] || ref[x.X] || place[placeOf(x.X)] {
									markRef(x)
								}
							}
						case *ssa.FieldAddr:
							if addr[x.X] {
								mark(addr, x)
							} else if ref[x.X] {
								mark(ref, x)
							}
						case *ssa.IndexAddr:
							if addr[x.X] {
								mark(addr, x)
							} else if ref[x.X] {
								mark(ref, x)
							}
						case *ssa.Slice:
							if addr[x.X] || ref[x.X] {
								mark(ref, x)
							}
						case *ssa.Phi:
							for _, e := range x.Edges {
								if ref[e] {
									mark(ref, x)
								}
								if addr[e] {
									mark(addr, x)
								}
							}
						case *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next:
							var ops [4]*ssa.Value
							for _, op := range in.Operands(ops[:0]) {
								if *op != nil && ref[*op] {
									if mi, ok := in.(*ssa.MakeInterface); ok && !hasDynamic(mi.X.Type()) {
										dynamic = append(dynamic, mi.X.Type())
										changed = true
									}
									if ta, ok := in.(*ssa.TypeAssert); ok && !types.IsInterface(ta.AssertedType) && !hasDynamic(ta.AssertedType) {
										continue
									}
									markRef(in.(ssa.Value))
									if _, ok := in.(*ssa.Range); ok {
										mark(ref, in.(ssa.Value))
									}
									if _, ok := in.(*ssa.Next); ok {
										mark(ref, in.(ssa.Value))
									}
								}
							}
						case *ssa.Store:
							if ref[x.Val] || addr[x.Val] {
								markPlace(placeOf(x.Addr))
							}
						case *ssa.MapUpdate:
							if ref[x.Value] || addr[x.Value] {
								markPlace("elem:" + x.Value.Type().String())
							}
						case *ssa.MakeClosure:
							for i, bv := range x.Bindings {
								if ref[bv] {
									mark(ref, x.Fn.(*ssa.Function).FreeVars[i])
								}
								if addr[bv] || place[placeOf(bv)] {
									markPlace(placeOf(x.Fn.(*ssa.Function).FreeVars[i]))
								}
							}
						case *ssa.Return:
							for i, rv := range x.Results {
								if !ref[rv] {
									continue
								}
								for _, c := range callers[fn] {
									v, ok := c.(ssa.Value)
									if !ok {
										continue
									}
									if len(x.Results) == 1 {
										markRef(v)
										continue
									}
									for _, u := range *v.Referrers() {
										if e, ok := u.(*ssa.Extract); ok && e.Index == i {
											markRef(e)
										}
									}
								}
							}
						}
						if c, ok := in.(ssa.CallInstruction); ok {
							cc := c.Common()
							if bi, ok := cc.Value.(*ssa.Builtin); ok {
								if bi.Name() == "append" && ref[cc.Args[0]] {
									markRef(in.(ssa.Value))
								}
								continue
							}
							for _, f := range resolve(cc) {
								if len(f.Blocks) == 0 || !inRepo(f) {
									continue
								}
								off := 0
								if cc.IsInvoke() {
									off = 1
									if ref[cc.Value] && hasDynamic(f.Signature.Recv().Type()) {
										mark(ref, f.Params[0])
									}
								}
								for i, a := range cc.Args {
									if i+off >= len(f.Params) {
										break
									}
									if ref[a] {
										mark(ref, f.Params[i+off])
									}
									if addr[a] {
										mark(ref, f.Params[i+off])
									}
								}
							}
						}
					}
				}
			}
		}
		for _, fn := range fns {
			if isInit(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					w := false
					switch x := in.(type) {
					case *ssa.Store:
						w = ref[x.Addr] || addr[x.Addr]
					case *ssa.MapUpdate:
						w = ref[x.Map]
					case *ssa.Send:
						w = ref[x.Chan]
					case ssa.CallInstruction:
						c := x.Common()
						if bi, ok := c.Value.(*ssa.Builtin); ok {
							switch bi.Name() {
							case "delete", "copy", "clear", "append":
								w = len(c.Args) > 0 && ref[c.Args[0]]
							}
						} else if f := c.StaticCallee(); f != nil && !inRepo(f) && len(c.Args) > 0 && isSort(c) {
							w = ref[c.Args[0]]
						}
					}
					if w && out[g] == nil {
						out[g] = in
					}
				}
			}
		}
	}
	return out
}

// placeOf names the abstract location of an address.
func placeOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("field:%s.%d", deref(x.X.Type()), x.Field)
	case *ssa.IndexAddr:
		return "elem:" + deref(x.Type()).String()
	case *ssa.Alloc:
		return fmt.Sprintf("alloc:%p", x)
	case *ssa.FreeVar:
		return fmt.Sprintf("free:%p", x)
	case *ssa.Global:
		return "global:" + x.String()
	}
	return ""
}

// holdsReference says whether a value of a type can refer to memory that is writable through it.
func holdsReference(t types.Type, depth int) bool {
	if depth > 4 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsReference(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return holdsReference(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsReference(u.At(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}
