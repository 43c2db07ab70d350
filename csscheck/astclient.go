package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// astModel is the set of syntax-tree types of the repository.
type astModel struct {
	prog  *Program
	pkg   *ssa.Package
	node  *types.Interface
	span  *types.Named
	alloc map[string]bool          // names of the types that the library builds
	named map[string]*types.Named  // all syntax-tree types
	cands map[string][]types.Type  // by interface type
	inits map[*ssa.Global]*initVal // of package variables
}

// The fields that may be nil in a tree that the parser or a transform builds. All other
// pointers and interfaces in trees are set.
var nilableFields = map[string]bool{
	"AtRule.Block":                  true,
	"AttributeSelector.Value":       true,
	"PseudoClassSelector.Arguments": true,
	"MediaFeaturePlain.Value":       true,
	"MediaFeatureRange.LeftValue":   true,
	"MediaFeatureRange.RightValue":  true,
}

func newASTModel(p *Program) (*astModel, error) {
	m := &astModel{prog: p, pkg: p.Pkgs["internal/ast"], alloc: map[string]bool{}, named: map[string]*types.Named{}, cands: map[string][]types.Type{}}
	if m.pkg == nil {
		return nil, fmt.Errorf("package internal/ast is gone")
	}
	n := p.Named("internal/ast", "Node")
	if n == nil {
		return nil, fmt.Errorf("ast.Node is gone")
	}
	m.node, _ = n.Underlying().(*types.Interface)
	m.span = p.Named("internal/ast", "Span")
	if m.node == nil || m.span == nil {
		return nil, fmt.Errorf("ast.Node or ast.Span is not what it was")
	}
	for name, mem := range m.pkg.Members {
		t, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		named, ok := t.Type().(*types.Named)
		if !ok || named == m.span {
			continue
		}
		if _, ok := named.Underlying().(*types.Struct); !ok {
			continue
		}
		if types.Implements(types.NewPointer(named), m.node) {
			m.named[name] = named
		}
	}
	for _, fn := range p.All {
		pk := fnPackage(fn)
		if pk == m.pkg.Pkg {
			if fn.Signature.Recv() != nil || fn.Synthetic != "" {
				continue
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				if named, ok := a.Type().(*types.Pointer).Elem().(*types.Named); ok && m.named[named.Obj().Name()] == named {
					m.alloc[named.Obj().Name()] = true
				}
			}
		}
	}
	return m, nil
}

// candidates are the pointer types that the library builds and that implement an interface.
func (m *astModel) candidates(t types.Type) []types.Type {
	iface, ok := t.Underlying().(*types.Interface)
	if !ok || !types.Implements(t, m.node) {
		return nil
	}
	key := ai.TypeKey(t)
	if c, ok := m.cands[key]; ok {
		return c
	}
	out := []types.Type{}
	var names []string
	for n := range m.alloc {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pt := types.NewPointer(m.named[n])
		if types.Implements(pt, iface) {
			out = append(out, pt)
		}
	}
	m.cands[key] = out
	return out
}

// nodeName is the name of the syntax-tree type behind a pointer type.
func (m *astModel) nodeName(t types.Type) string {
	p, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || m.named[n.Obj().Name()] != n {
		return ""
	}
	return n.Obj().Name()
}

// isNodeType says whether a type is a pointer to a syntax-tree type or an interface of them.
func (m *astModel) isNodeType(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(t, m.node)
	}
	return m.nodeName(t) != ""
}

func (m *astModel) structOf(name string) *types.Struct {
	return m.named[name].Underlying().(*types.Struct)
}

func (m *astModel) fieldIndex(name, field string) int {
	s := m.structOf(name)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return i
		}
	}
	return -1
}

// astClient is an ai.Client for programs over syntax trees.
type astClient struct{ m *astModel }

func (c *astClient) Candidates(st *ai.State, s ai.Sym) []types.Type {
	t := st.Info(s).T
	if t == nil {
		return nil
	}
	return c.m.candidates(t)
}

func (c *astClient) Inner(st *ai.State, s ai.Sym, t types.Type) ai.Value {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: t, Nil: ai.No, Label: st.Info(s).Label})}
	}
	return st.Unknown(t, st.Info(s).Label)
}

func (c *astClient) NewInput(st *ai.State, t types.Type, s ai.Sym) ai.Value {
	named, _ := t.(*types.Named)
	str, ok := t.Underlying().(*types.Struct)
	if !ok {
		return st.Unknown(t, st.Info(s).Label)
	}
	name := ""
	if named != nil {
		name = named.Obj().Name()
	}
	out := ai.StructV{F: make([]ai.Value, str.NumFields())}
	for i := range out.F {
		out.F[i] = c.field(st, str.Field(i).Type(), name+"."+str.Field(i).Name(), named != nil && c.m.named[name] == named)
	}
	return out
}

func (c *astClient) field(st *ai.State, t types.Type, label string, inTree bool) ai.Value {
	v := st.Unknown(t, label)
	if s, ok := v.(ai.SymV); ok && inTree && !nilableFields[label] && c.m.isNodeType(t) {
		st.Update(s.S, func(i *ai.SymInfo) { i.Nil = ai.No })
	}
	return v
}

func (c *astClient) NewElem(st *ai.State, list ai.ObjID, idx ai.Int) ai.Value {
	o := st.Object(list)
	v := st.Unknown(o.T, o.Label+"[]")
	if s, ok := v.(ai.SymV); ok && c.m.isNodeType(o.T) {
		st.Update(s.S, func(i *ai.SymInfo) { i.Nil = ai.No })
	}
	return v
}

func (c *astClient) Global(st *ai.State, g *ssa.Global) ai.Value { return c.m.globalValue(st, g) }
func (c *astClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	return nil, false
}
func (c *astClient) Load(st *ai.State, p ai.Ptr, t types.Type) (ai.Value, bool) { return nil, false }
func (c *astClient) Store(st *ai.State, p ai.Ptr, v ai.Value)                   {}
func (c *astClient) LoopBack(st *ai.State, head *ssa.BasicBlock)                {}
func (c *astClient) LoopHead(st *ai.State, head *ssa.BasicBlock)                { st.ForgetElements(nil) }
func (c *astClient) KeepCounters(st *ai.State, head *ssa.BasicBlock) bool       { return false }
func (c *astClient) Exit(st *ai.State)                                          {}
func (c *astClient) Forget(fn *ssa.Function) bool                               { return false }
func (c *astClient) MapLookup(st *ai.State, m, key ai.Value, t *types.Map) (ai.Value, ai.Value, bool) {
	return nil, nil, false
}
func (c *astClient) MapUpdate(st *ai.State, m, key, v ai.Value) bool { return false }
func (c *astClient) MapNext(st *ai.State, m ai.Value, t *types.Map) (k, v, done ai.Value, handled bool) {
	return nil, nil, nil, false
}
func (c *astClient) SegElem(st *ai.State, list ai.ObjID, seg ai.Seg, idx ai.Value) (ai.Value, bool) {
	// A list that is a copy of the start of an input list.
	o := st.Object(list)
	i, ok := idx.(ai.Int)
	if !ok || len(o.Segs) == 0 || o.Segs[0].Of != seg.Of || seg.Of == 0 || seg.Tag != "" || seg.Lo != (ai.Int{}) {
		return nil, false
	}
	if st.Less(i, seg.Hi, false) != ai.Yes {
		return nil, false
	}
	v := st.ElemAt(seg.Of, i)
	from := st.Object(seg.Of).T
	if _, ok := from.Underlying().(*types.Interface); ok || o.T == nil {
		return v, true
	}
	if _, ok := o.T.Underlying().(*types.Interface); ok {
		return ai.Iface{T: from, V: v}, true
	}
	return v, true
}

func (c *astClient) SegLen(st *ai.State, seg ai.Seg) ai.Int {
	if seg.Lo == (ai.Int{}) {
		return seg.Hi
	}
	st.Undecided("length of a part of a list")
	return ai.Int{}
}

// ---- package variables

// initVal is what a package initialiser puts in a variable.
type initVal struct {
	value  func(st *ai.State) ai.Value // if it is known
	nonNil bool
}

func (m *astModel) scanInits() {
	m.inits = map[*ssa.Global]*initVal{}
	bad := map[*ssa.Global]bool{}
	parts := map[*ssa.Global][]*ssa.Store{}
	for _, fn := range m.prog.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fn.Synthetic != "package initializer" {
					if g := writtenGlobal(in); g != nil {
						bad[g] = true
					}
					continue
				}
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					// A part of a composite.
					if g := rootGlobal(s.Addr, 0); g != nil {
						parts[g] = append(parts[g], s)
					}
					continue
				}
				if m.inits[g] != nil {
					bad[g] = true
					continue
				}
				iv := &initVal{value: initValue(s.Val, map[ssa.Value]bool{})}
				m.inits[g] = iv
				switch v := s.Val.(type) {
				case *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Function:
					iv.nonNil = true
				case *ssa.Call:
					if f := v.Call.StaticCallee(); f != nil {
						switch ai.FullName(f) {
						case "errors.New", "fmt.Errorf", "github.com/samsarahq/go/oops.Errorf":
							iv.nonNil = true
						}
					}
				}
			}
		}
	}
	for g, stores := range parts {
		if m.inits[g] != nil {
			bad[g] = true
			continue
		}
		m.inits[g] = &initVal{value: initComposite(g, stores, map[ssa.Value]bool{})}
	}
	for g := range bad {
		m.inits[g] = nil
	}
}

// initValue is the value of an expression of a package initialiser, if it is a constant or a
// composite of such; nil otherwise.
func initValue(v ssa.Value, seen map[ssa.Value]bool) func(st *ai.State) ai.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	defer delete(seen, v)
	// local is the value in a variable that is only written part by part and then read.
	local := func(a *ssa.Alloc, read ssa.Instruction) func(st *ai.State) ai.Value {
		var stores []*ssa.Store
		var collect func(v ssa.Value) bool
		collect = func(v ssa.Value) bool {
			for _, ref := range *v.Referrers() {
				switch u := ref.(type) {
				case *ssa.FieldAddr:
					if !collect(u) {
						return false
					}
				case *ssa.IndexAddr:
					if !collect(u) {
						return false
					}
				case *ssa.Store:
					if u.Addr != v {
						return false
					}
					stores = append(stores, u)
				case *ssa.DebugRef:
				default:
					if ref != read {
						return false
					}
				}
			}
			return true
		}
		if !collect(a) {
			return nil
		}
		return initComposite(a, stores, seen)
	}
	switch v := v.(type) {
	case *ssa.Const:
		return func(st *ai.State) ai.Value { return st.Get(v) }
	case *ssa.Function:
		return func(st *ai.State) ai.Value { return ai.FuncV{Fn: v} }
	case *ssa.ChangeType:
		return initValue(v.X, seen)
	case *ssa.MakeInterface:
		f := initValue(v.X, seen)
		if f == nil {
			return nil
		}
		return func(st *ai.State) ai.Value { return ai.Iface{T: v.X.Type(), V: f(st)} }
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			return local(a, v)
		}
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil || v.Max != nil {
			return nil
		}
		f := local(a, v)
		if f == nil {
			return nil
		}
		return func(st *ai.State) ai.Value {
			l := &ai.Obj{Kind: ai.List, T: v.Type().Underlying().(*types.Slice).Elem()}
			arr, ok := f(st).(ai.StructV)
			if !ok {
				return st.Unknown(v.Type(), "list")
			}
			for _, e := range arr.F {
				l.Segs = append(l.Segs, ai.Seg{Elem: e})
			}
			return ai.SliceV{Obj: st.NewObj(l), Whole: true, Full: true}
		}
	case *ssa.MakeMap:
		type entry struct {
			k *ssa.Const
			v func(st *ai.State) ai.Value
		}
		var entries []entry
		for _, ref := range *v.Referrers() {
			switch u := ref.(type) {
			case *ssa.MapUpdate:
				k, ok := u.Key.(*ssa.Const)
				if !ok || u.Map != v {
					return nil
				}
				f := initValue(u.Value, seen)
				if f == nil {
					f = func(st *ai.State) ai.Value { return st.Unknown(u.Value.Type(), "map element") }
				}
				entries = append(entries, entry{k, f})
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return func(st *ai.State) ai.Value {
			o := &ai.Obj{Kind: ai.Map, T: v.Type(), Label: "map"}
			for _, e := range entries {
				o.Entries = append(o.Entries, ai.Entry{K: st.Get(e.k), V: e.v(st)})
			}
			return ai.Ptr{Obj: st.NewObj(o)}
		}
	}
	return nil
}

// initComposite is the value of a struct or array that is written part by part.
func initComposite(root ssa.Value, stores []*ssa.Store, seen map[ssa.Value]bool) func(st *ai.State) ai.Value {
	type part struct {
		path []int
		v    func(st *ai.State) ai.Value
		t    types.Type
	}
	var parts []part
	for _, s := range stores {
		var path []int
		for a := s.Addr; a != root; {
			switch u := a.(type) {
			case *ssa.FieldAddr:
				path = append([]int{u.Field}, path...)
				a = u.X
			case *ssa.IndexAddr:
				k, ok := u.Index.(*ssa.Const)
				if _, isArray := deref(u.X.Type()).Underlying().(*types.Array); !ok || !isArray {
					return nil
				}
				path = append([]int{int(k.Int64())}, path...)
				a = u.X
			default:
				return nil
			}
		}
		parts = append(parts, part{path, initValue(s.Val, seen), s.Val.Type()})
	}
	t := deref(root.Type())
	return func(st *ai.State) ai.Value {
		v := st.M.Zero(st, t)
		for _, p := range parts {
			var x ai.Value
			if p.v != nil {
				x = p.v(st)
			} else {
				x = st.Unknown(p.t, "initial value")
			}
			v = replacePart(v, p.path, x)
			if v == nil {
				return st.Unknown(t, "initial value")
			}
		}
		return v
	}
}

func replacePart(v ai.Value, path []int, x ai.Value) ai.Value {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(ai.StructV)
	if !ok || path[0] < 0 || path[0] >= len(s.F) {
		return nil
	}
	f := append([]ai.Value(nil), s.F...)
	if f[path[0]] = replacePart(f[path[0]], path[1:], x); f[path[0]] == nil {
		return nil
	}
	return ai.StructV{F: f}
}

func (m *astModel) globalValue(st *ai.State, g *ssa.Global) ai.Value {
	if m.inits == nil {
		m.scanInits()
	}
	t := g.Type().(*types.Pointer).Elem()
	iv, stored := m.inits[g]
	if iv == nil {
		if !stored && pkgInRepo(g.Pkg.Pkg) {
			return st.M.Zero(st, t)
		}
		return st.Unknown(t, g.Name())
	}
	if iv.value != nil {
		return iv.value(st)
	}
	v := st.Unknown(t, g.Name())
	if s, ok := v.(ai.SymV); ok && iv.nonNil {
		st.Update(s.S, func(i *ai.SymInfo) { i.Nil = ai.No })
	}
	return v
}
