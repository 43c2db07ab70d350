package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Trace is the path of decisions that led to a state, for diagnosis only.
type Trace struct {
	Up  *Trace
	Msg string
	N   int
}

type deferred struct {
	Fn   Value
	Args []Value
	In   ssa.Instruction
	// for builtins and interface calls
	Call *ssa.CallCommon
}

// State is an abstract state at one point of one function.
type State struct {
	M    *Machine
	Sum  *Summary
	Fn   *ssa.Function
	Blk  *ssa.BasicBlock
	PC   int
	regs []Value

	defers []deferred
	objs   []*Obj
	syms   []*SymInfo
	rels   []Rel

	globals map[*ssa.Global]ObjID
	Ghost   map[string]Value

	pinObjs, pinSyms int

	panicking   Value // unwinding with this panic value
	recoverable Value // what recover() returns in this frame
	recovered   bool
	unwinding   bool  // running deferred calls
	result      Value // of an exit

	choices   []int
	choiceIdx int

	// Stash is what a client keeps in a state while it waits for a call: it is not passed on to
	// the function that is called.
	Stash map[string]Value

	trace *Trace
	node  int // graph node this state comes from
	prog  bool
}

func (st *State) clone() *State {
	c := *st
	c.regs = append([]Value(nil), st.regs...)
	c.defers = append([]deferred(nil), st.defers...)
	c.objs = append([]*Obj(nil), st.objs...)
	c.syms = append([]*SymInfo(nil), st.syms...)
	c.rels = append([]Rel(nil), st.rels...)
	c.globals = make(map[*ssa.Global]ObjID, len(st.globals))
	for k, v := range st.globals {
		c.globals[k] = v
	}
	c.Ghost = make(map[string]Value, len(st.Ghost))
	for k, v := range st.Ghost {
		c.Ghost[k] = v
	}
	c.choices = append([]int(nil), st.choices...)
	return &c
}

// Note appends to the diagnostic path.
func (st *State) Note(format string, args ...interface{}) {
	n := 1
	if st.trace != nil {
		n = st.trace.N + 1
	}
	st.trace = &Trace{st.trace, fmt.Sprintf(format, args...), n}
}

// Path renders the end of the diagnostic path.
func (st *State) Path() string {
	var out []string
	for t := st.trace; t != nil && len(out) < 40; t = t.Up {
		out = append(out, t.Msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Join(out, " ; ")
}

// Where is the position of the current instruction.
func (st *State) Where() string {
	if st.Blk != nil && st.PC < len(st.Blk.Instrs) {
		return st.M.Pos(st.Blk.Instrs[st.PC])
	}
	return st.Fn.String()
}

// Instr is the current instruction.
func (st *State) Instr() ssa.Instruction {
	if st.Blk != nil && st.PC < len(st.Blk.Instrs) {
		return st.Blk.Instrs[st.PC]
	}
	return nil
}

// ---- forks

type forkSignal struct {
	n      int
	prefix []int
}
type raiseSignal struct{ v Value }
type infeasible struct{}
type undecided struct{ msg string }

// Undecided stops the analysis of a path that it cannot follow.
func (st *State) Undecided(format string, args ...interface{}) {
	panic(undecided{st.Where() + ": " + fmt.Sprintf(format, args...)})
}

// Infeasible drops the current path.
func (st *State) Infeasible() { panic(infeasible{}) }

// Choose splits the state into n alternatives. The instruction is executed again in each
// of them, with the same choices up to here. refine may reject an alternative.
func (st *State) Choose(n int, refine func(s *State, i int) bool) int {
	if st.choiceIdx < len(st.choices) {
		c := st.choices[st.choiceIdx]
		st.choiceIdx++
		if refine != nil && !refine(st, c) {
			panic(infeasible{})
		}
		return c
	}
	panic(forkSignal{n, st.choices})
}

// DecideTop is an undetermined boolean without identity.
func (st *State) DecideTop() bool { return st.Choose(2, nil) == 1 }

// ---- symbols

// Info returns the facts about a symbol.
func (st *State) Info(s Sym) *SymInfo { return st.syms[s] }

// NewSym makes a symbol.
func (st *State) NewSym(info SymInfo) Sym {
	st.syms = append(st.syms, &info)
	return Sym(len(st.syms) - 1)
}

// Update changes the facts about a symbol.
func (st *State) Update(s Sym, f func(i *SymInfo)) {
	c := st.syms[s].clone()
	f(c)
	st.syms[s] = c
}

// NewDef returns the symbol of a term, the same one for the same term.
func (st *State) NewDef(t types.Type, op string, args ...Value) Sym {
	key := st.rawKey(args)
	for i, si := range st.syms {
		if si != nil && si.Def != nil && si.Def.Op == op && len(si.Def.Args) == len(args) && st.rawKey(si.Def.Args) == key {
			return Sym(i)
		}
	}
	return st.NewSym(SymInfo{T: t, Def: &Term{op, args}})
}

// HasDef says whether there is a symbol for a term.
func (st *State) HasDef(op string, args ...Value) bool {
	key := st.rawKey(args)
	for _, si := range st.syms {
		if si != nil && si.Def != nil && si.Def.Op == op && len(si.Def.Args) == len(args) && st.rawKey(si.Def.Args) == key {
			return true
		}
	}
	return false
}

func (st *State) rawKey(args []Value) string {
	var b strings.Builder
	for _, a := range args {
		writeRaw(&b, st.Resolve(a))
		b.WriteByte(';')
	}
	return b.String()
}

// wn writes a name and a number.
func wn(b *strings.Builder, name string, n int64) {
	var buf [24]byte
	b.WriteString(name)
	b.Write(strconv.AppendInt(buf[:0], n, 10))
}

func writeRaw(b *strings.Builder, v Value) {
	switch v := v.(type) {
	case Int:
		wn(b, "i", int64(v.Base))
		wn(b, "+", v.Off)
	case Str:
		for _, p := range v.P {
			if p.Sym != 0 {
				wn(b, "s", int64(p.Sym))
				b.WriteByte('|')
			} else {
				b.WriteString(strconv.Quote(p.Lit))
				b.WriteByte('|')
			}
		}
	case SymV:
		wn(b, "v", int64(v.S))
	case Ptr:
		wn(b, "p", int64(v.Obj))
		for _, s := range v.Path {
			if s.Elem {
				wn(b, "[", int64(s.Idx.Base))
				wn(b, "+", s.Idx.Off)
			} else {
				wn(b, ".", int64(s.Field))
			}
		}
	case StructV:
		b.WriteByte('{')
		for _, f := range v.F {
			writeRaw(b, f)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case Iface:
		b.WriteString("I<")
		b.WriteString(TypeKey(v.T))
		b.WriteByte('>')
		writeRaw(b, v.V)
	case FuncV:
		fmt.Fprintf(b, "F%s%v(", v.Native, v.Fn)
		for _, f := range v.B {
			writeRaw(b, f)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case SliceV:
		wn(b, "S", int64(v.Obj))
		wn(b, "[", int64(v.Lo.Base))
		wn(b, "+", v.Lo.Off)
		wn(b, ":", int64(v.Len.Base))
		wn(b, "+", v.Len.Off)
		b.WriteString(strconv.FormatBool(v.Full))
		b.WriteString(strconv.FormatBool(v.Whole))
	case TupleV:
		b.WriteByte('(')
		for _, f := range v.V {
			writeRaw(b, f)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case Tag:
		fmt.Fprintf(b, "#%s", v.S)
	case IterV:
		fmt.Fprintf(b, "it%d@%d+%d", v.Count, v.Pos.Base, v.Pos.Off)
		writeRaw(b, v.X)
	case Top:
		b.WriteByte('T')
	case Nil:
		b.WriteByte('0')
	case nil:
		b.WriteByte('_')
	default:
		panic(fmt.Sprintf("writeRaw: %T", v))
	}
}

// SameValue says whether two values are certainly identical.
func (st *State) SameValue(a, b Value) bool {
	if containsTop(a) || containsTop(b) {
		return false
	}
	return st.rawKey([]Value{a}) == st.rawKey([]Value{b})
}

func containsTop(v Value) bool {
	switch v := v.(type) {
	case Top:
		return true
	case StructV:
		for _, f := range v.F {
			if containsTop(f) {
				return true
			}
		}
	case Iface:
		return containsTop(v.V)
	case TupleV:
		for _, f := range v.V {
			if containsTop(f) {
				return true
			}
		}
	}
	return false
}

// Resolve replaces symbols that are known to be constants, and interfaces of known type.
func (st *State) Resolve(v Value) Value {
	switch v := v.(type) {
	case Int:
		return st.ResInt(v)
	case Str:
		return st.ResStr(v)
	case SymV:
		si := st.syms[v.S]
		if si.Nil == Yes {
			return Nil{}
		}
		if si.Dyn != nil {
			return Iface{si.Dyn, si.Inner}
		}
		if si.Obj != 0 {
			if si.T != nil {
				switch si.T.Underlying().(type) {
				case *types.Pointer, *types.Map:
					return Ptr{Obj: si.Obj}
				}
			}
		}
		return v
	}
	return v
}

// ResInt replaces a symbol with a single possible value.
func (st *State) ResInt(i Int) Int {
	if i.Base == 0 {
		return i
	}
	if set := st.syms[i.Base].Set; set != nil {
		if n, ok := set.Single(); ok {
			return Int{Off: n + i.Off}
		}
	}
	return i
}

// ResStr replaces symbols whose text is known.
func (st *State) ResStr(s Str) Str {
	changed := false
	for _, p := range s.P {
		if p.Sym != 0 {
			if _, ok := st.symText(p.Sym); ok || st.syms[p.Sym].Is != nil {
				changed = true
			}
		}
	}
	if !changed {
		return s
	}
	var parts []Str
	for _, p := range s.P {
		if p.Sym != 0 {
			if t, ok := st.symText(p.Sym); ok {
				parts = append(parts, Lit(t))
				continue
			}
			if is := st.syms[p.Sym].Is; is != nil {
				parts = append(parts, st.ResStr(*is))
				continue
			}
			parts = append(parts, SymStr(p.Sym))
			continue
		}
		parts = append(parts, Lit(p.Lit))
	}
	return Concat(parts...)
}

func (st *State) symText(s Sym) (string, bool) {
	si := st.syms[s]
	if si.Eq != nil {
		return *si.Eq, true
	}
	if si.Len != nil {
		if l := st.ResInt(*si.Len); l.IsConst() && l.Off == 0 {
			return "", true
		}
	}
	return "", false
}

// ---- integers

func (st *State) set(i Int) IntSet {
	if i.Base == 0 {
		return Range(i.Off, i.Off)
	}
	return st.syms[i.Base].IntSetOf().Shift(i.Off)
}

// SetOfInt is the set of possible values.
func (st *State) SetOfInt(i Int) IntSet { return st.set(i) }

// upper is an upper bound of a-b, or maxInt.
func (st *State) upper(a, b Sym) int64 {
	if a == b {
		return 0
	}
	// Bellman-Ford from a over the edges A -> B of weight C (A - B <= C).
	dist := map[Sym]int64{a: 0}
	edge := func(changed *bool, x, y Sym, c int64) {
		d, ok := dist[x]
		if !ok {
			return
		}
		n := d + c
		if o, ok := dist[y]; !ok || n < o {
			dist[y] = n
			*changed = true
		}
	}
	for round := 0; round < 12; round++ {
		changed := false
		for _, r := range st.rels {
			edge(&changed, r.A, r.B, r.C)
		}
		for s := range dist {
			if s == 0 {
				continue
			}
			if _, hi := st.syms[s].IntSetOf().Bounds(); hi != maxInt {
				edge(&changed, s, 0, hi)
			}
		}
		if _, ok := dist[0]; ok {
			if b != 0 {
				if lo, _ := st.syms[b].IntSetOf().Bounds(); lo != minInt {
					edge(&changed, 0, b, -lo)
				}
			}
			for _, r := range st.rels {
				if lo, _ := st.syms[r.A].IntSetOf().Bounds(); lo != minInt {
					edge(&changed, 0, r.A, -lo)
				}
			}
		}
		if !changed {
			break
		}
	}
	if d, ok := dist[b]; ok {
		return d
	}
	return maxInt
}

// Less decides x < y (or x <= y) if it is determined.
func (st *State) Less(x, y Int, orEqual bool) Tri {
	c := y.Off - x.Off
	if !orEqual {
		c--
	}
	// x.Base - y.Base <= c ?
	if u := st.upper(x.Base, y.Base); u != maxInt && u <= c {
		return Yes
	}
	// certainly not if y.Base - x.Base <= -c-1
	if u := st.upper(y.Base, x.Base); u != maxInt && u <= -c-1 {
		return No
	}
	if y.Base == 0 && x.Base != 0 {
		s := st.set(x)
		lim := y.Off
		if !orEqual {
			lim--
		}
		if s.Intersect(Range(minInt, lim)).Empty() {
			return No
		}
		if s.Intersect(IntSet{{lim + 1, maxInt}}).Empty() && lim != maxInt {
			return Yes
		}
	}
	return Unknown
}

// Equal decides x == y if it is determined.
func (st *State) Equal(x, y Int) Tri {
	x, y = st.ResInt(x), st.ResInt(y)
	if x.Base == y.Base {
		if x.Off == y.Off {
			return Yes
		}
		return No
	}
	if st.set(x).Intersect(st.set(y)).Empty() {
		return No
	}
	if st.Less(x, y, false) == Yes || st.Less(y, x, false) == Yes {
		return No
	}
	if st.Less(x, y, true) == Yes && st.Less(y, x, true) == Yes {
		return Yes
	}
	return Unknown
}

func (st *State) addRel(a, b Sym, c int64) {
	for i, r := range st.rels {
		if r.A == a && r.B == b {
			if c < r.C {
				st.rels[i].C = c
			}
			return
		}
	}
	st.rels = append(st.rels, Rel{a, b, c})
}

// RefineSet restricts an integer to a set. It returns false if that is impossible.
func (st *State) RefineSet(x Int, set IntSet) bool {
	if x.Base == 0 {
		return set.Contains(x.Off)
	}
	n := st.syms[x.Base].IntSetOf().Intersect(set.Shift(-x.Off))
	if n.Empty() {
		return false
	}
	st.Update(x.Base, func(i *SymInfo) { i.Set = n })
	return true
}

// AssumeLess adds x < y (or x <= y).
func (st *State) AssumeLess(x, y Int, orEqual bool) bool {
	switch st.Less(x, y, orEqual) {
	case Yes:
		return true
	case No:
		return false
	}
	c := y.Off - x.Off
	if !orEqual {
		c--
	}
	switch {
	case y.Base == 0:
		return st.RefineSet(Int{Base: x.Base}, IntSet{{minInt, c}})
	case x.Base == 0:
		return st.RefineSet(Int{Base: y.Base}, IntSet{{-c, maxInt}})
	default:
		st.addRel(x.Base, y.Base, c)
		return true
	}
}

// AssumeEqual adds x == y or x != y.
func (st *State) AssumeEqual(x, y Int, eq bool) bool {
	x, y = st.ResInt(x), st.ResInt(y)
	switch st.Equal(x, y) {
	case Yes:
		return eq
	case No:
		return !eq
	}
	if x.Base == 0 {
		x, y = y, x
	}
	if y.Base == 0 {
		if eq {
			return st.RefineSet(x, Range(y.Off, y.Off))
		}
		return st.RefineSet(x, AllInts.Minus(Range(y.Off, y.Off)))
	}
	if eq {
		st.addRel(x.Base, y.Base, y.Off-x.Off)
		st.addRel(y.Base, x.Base, x.Off-y.Off)
		return st.RefineSet(x, st.set(y)) && st.RefineSet(y, st.set(x))
	}
	if st.Less(x, y, true) == Yes {
		return st.AssumeLess(x, y, false)
	}
	if st.Less(y, x, true) == Yes {
		return st.AssumeLess(y, x, false)
	}
	return true
}

// DecideLess splits on x < y (or x <= y).
func (st *State) DecideLess(x, y Int, orEqual bool) bool {
	switch st.Less(x, y, orEqual) {
	case Yes:
		return true
	case No:
		return false
	}
	return st.Choose(2, func(s *State, i int) bool {
		if i == 1 {
			return s.AssumeLess(x, y, orEqual)
		}
		return s.AssumeLess(y, x, !orEqual)
	}) == 1
}

// DecideEqual splits on x == y.
func (st *State) DecideEqual(x, y Int) bool {
	switch st.Equal(x, y) {
	case Yes:
		return true
	case No:
		return false
	}
	return st.Choose(2, func(s *State, i int) bool { return s.AssumeEqual(x, y, i == 1) }) == 1
}

// DecideBool splits on a boolean value.
func (st *State) DecideBool(v Value) bool {
	switch v := st.Resolve(v).(type) {
	case Int:
		return !st.DecideEqual(v, K(0))
	case Top:
		return st.DecideTop()
	case SymV:
		return st.DecideTop()
	default:
		st.Undecided("condition %T", v)
	}
	return false
}

// DecideIn splits on membership of an integer in a set.
func (st *State) DecideIn(x Int, set IntSet) bool {
	s := st.set(x)
	if s.Subset(set) {
		return true
	}
	if s.Intersect(set).Empty() {
		return false
	}
	return st.Choose(2, func(s *State, i int) bool {
		if i == 1 {
			return s.RefineSet(x, set)
		}
		return s.RefineSet(x, AllInts.Minus(set))
	}) == 1
}

// ---- strings

// StrLen is the length of a string.
func (st *State) StrLen(s Str) Int {
	s = st.ResStr(s)
	n := Int{}
	for _, p := range s.P {
		if p.Sym == 0 {
			n.Off += int64(len(p.Lit))
			continue
		}
		si := st.syms[p.Sym]
		if si.Len == nil {
			lo := int64(len(si.Pre))
			for _, e := range si.Ne {
				if e == "" && lo == 0 {
					lo = 1
				}
			}
			ls := st.NewSym(SymInfo{T: types.Typ[types.Int], Set: IntSet{{lo, maxInt}}, Label: "len"})
			l := Int{Base: ls}
			st.Update(p.Sym, func(i *SymInfo) { i.Len = &l })
			si = st.syms[p.Sym]
		}
		l := st.ResInt(*si.Len)
		n = st.AddInts(n, l)
	}
	return n
}

// AddInts adds two integers.
func (st *State) AddInts(a, b Int) Int {
	a, b = st.ResInt(a), st.ResInt(b)
	if a.Base == 0 {
		return b.Add(a.Off)
	}
	if b.Base == 0 {
		return a.Add(b.Off)
	}
	if c, ok := st.M.Client.(IntAdder); ok {
		if n, ok := c.AddHook(st, a, b); ok {
			return n
		}
	}
	if a.Base > b.Base {
		a, b = b, a
	}
	s := st.NewDef(types.Typ[types.Int], "+", Int{Base: a.Base}, Int{Base: b.Base})
	if st.syms[s].Set == nil {
		la, _ := st.syms[a.Base].IntSetOf().Bounds()
		lb, _ := st.syms[b.Base].IntSetOf().Bounds()
		if la != minInt && lb != minInt {
			st.Update(s, func(i *SymInfo) { i.Set = IntSet{{la + lb, maxInt}} })
		}
		if la >= 0 {
			st.addRel(b.Base, s, 0)
		}
		if lb >= 0 {
			st.addRel(a.Base, s, 0)
		}
	}
	return Int{Base: s, Off: a.Off + b.Off}
}

// StrEqual decides a == b if it is determined.
func (st *State) StrEqual(a, b Str) Tri {
	a, b = st.ResStr(a), st.ResStr(b)
	la, aok := a.Const()
	lb, bok := b.Const()
	if aok && bok {
		if la == lb {
			return Yes
		}
		return No
	}
	if st.rawKey([]Value{a}) == st.rawKey([]Value{b}) {
		return Yes
	}
	if aok {
		a, b, la, aok, lb, bok = b, a, lb, bok, la, aok
	}
	if bok {
		if s := a.Single(); s != 0 {
			return st.symEqLit(s, lb)
		}
		// A literal prefix or suffix may exclude it.
		if p := a.P[0]; p.Sym == 0 && !strings.HasPrefix(lb, p.Lit) {
			return No
		}
		if p := a.P[len(a.P)-1]; p.Sym == 0 && !strings.HasSuffix(lb, p.Lit) {
			return No
		}
		min := 0
		for _, p := range a.P {
			min += len(p.Lit)
		}
		if min > len(lb) {
			return No
		}
	}
	if st.M.Unify {
		a, b = common(a, b)
	}
	ka, kb := st.rawKey([]Value{a, b}), st.rawKey([]Value{b, a})
	for _, si := range st.syms {
		if si == nil || si.Def == nil || si.Def.Op != "streq" {
			continue
		}
		v, one := si.IntSetOf().Single()
		if !one {
			continue
		}
		if k := st.rawKey(si.Def.Args); k == ka || k == kb {
			if v != 0 {
				return Yes
			}
			return No
		}
	}
	return Unknown
}

// startOf is the symbol that a symbol is the start of, if that has n bytes.
func (st *State) startOf(s Sym, n int) Sym {
	d := st.syms[s].Def
	if d == nil || d.Op != "substr" || len(d.Args) != 3 || d.Args[1] != K(0) || d.Args[2] != K(int64(n)) {
		return 0
	}
	of, ok := d.Args[0].(Str)
	if !ok {
		return 0
	}
	return st.ResStr(of).Single()
}

func yesNo(b bool) Tri {
	if b {
		return Yes
	}
	return No
}

func (st *State) symEqLit(s Sym, lit string) Tri {
	si := st.syms[s]
	for _, n := range si.Ne {
		if n == lit {
			return No
		}
	}
	if !strings.HasPrefix(lit, si.Pre) {
		return No
	}
	for _, n := range si.NotPre {
		if strings.HasPrefix(lit, n) {
			return No
		}
	}
	if si.Len != nil && !st.set(*si.Len).Contains(int64(len(lit))) {
		return No
	}
	if of := st.startOf(s, len(lit)); of != 0 {
		o := st.syms[of]
		if o.Eq != nil {
			return yesNo(strings.HasPrefix(*o.Eq, lit))
		}
		if strings.HasPrefix(o.Pre, lit) {
			return Yes
		}
		if !strings.HasPrefix(lit, o.Pre) {
			return No
		}
		for _, n := range o.NotPre {
			if strings.HasPrefix(lit, n) {
				return No
			}
		}
	}
	exact := si.Len != nil && st.ResInt(*si.Len) == K(int64(len(lit)))
	for i := 0; i < len(lit); i++ {
		b, ok := st.byteSet(s, i)
		if !ok {
			exact = false
			continue
		}
		if !b.Contains(int64(lit[i])) {
			return No
		}
		if _, one := b.Single(); !one {
			exact = false
		}
	}
	if exact {
		return Yes
	}
	return Unknown
}

// byteSet is what is known about a byte of a string symbol.
func (st *State) byteSet(s Sym, i int) (IntSet, bool) {
	key := st.rawKey([]Value{SymStr(s), K(int64(i))})
	for _, si := range st.syms {
		if si != nil && si.Def != nil && si.Def.Op == "byteat" && st.rawKey(si.Def.Args) == key {
			return si.IntSetOf(), true
		}
	}
	return nil, false
}

// BytesKnown says whether the length of a string is known and each of its bytes is known up to case.
func (st *State) BytesKnown(s Sym) bool {
	si := st.syms[s]
	if si.Eq != nil {
		return true
	}
	if si.Len == nil {
		return false
	}
	l := st.ResInt(*si.Len)
	if !l.IsConst() {
		return false
	}
	for i := 0; i < int(l.Off); i++ {
		b, ok := st.byteSet(s, i)
		if !ok || b.Count(3) > 2 {
			return false
		}
	}
	return true
}

// AssumeStrEqual adds a == b or a != b.
func (st *State) AssumeStrEqual(a, b Str, eq bool) bool {
	switch st.StrEqual(a, b) {
	case Yes:
		return eq
	case No:
		return !eq
	}
	a, b = st.ResStr(a), st.ResStr(b)
	if _, ok := a.Const(); ok {
		a, b = b, a
	}
	lit, ok := b.Const()
	if s := a.Single(); s != 0 && ok {
		if of := st.startOf(s, len(lit)); of != 0 && lit != "" && !st.assumePrefix(SymStr(of), lit, eq) {
			return false
		}
		if eq {
			st.Update(s, func(i *SymInfo) { i.Eq = &lit; i.Ne = nil; i.NotPre = nil; i.Pre = "" })
			return true
		}
		st.Update(s, func(i *SymInfo) {
			i.Ne = append(append([]string(nil), i.Ne...), lit)
			sort.Strings(i.Ne)
		})
		if lit == "" {
			if l := st.syms[s].Len; l != nil {
				return st.RefineSet(*l, IntSet{{1, maxInt}})
			}
		}
		return true
	}
	if st.M.Unify {
		a, b = common(a, b)
		if eq && a.Single() != 0 {
			return st.alias(a.Single(), b)
		}
	}
	// Remember the outcome by term.
	bs := st.NewDef(types.Typ[types.Bool], "streq", a, b)
	return st.RefineSet(Int{Base: bs}, Range(b2i(eq), b2i(eq)))
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// common takes away what texts start with, in common. If a single symbol remains of one, it is
// the first.
func common(a, b Str) (Str, Str) {
	p, q := a.P, b.P
	for len(p) > 1 && len(q) > 1 && p[0] == q[0] {
		p, q = p[1:], q[1:]
	}
	a, b = Str{P: p}, Str{P: q}
	if a.Single() == 0 {
		a, b = b, a
	}
	return a, b
}

// alias makes a symbol the same as a text.
func (st *State) alias(s Sym, b Str) bool {
	old := st.syms[s]
	for _, p := range b.P {
		if p.Sym == s {
			st.Undecided("a text that is the same as a part of it")
		}
	}
	if old.Len != nil {
		st.Undecided("a text of known length that is the same as another")
	}
	st.Update(s, func(i *SymInfo) { i.Is = &b })
	for _, n := range old.Ne {
		if !st.AssumeStrEqual(b, Lit(n), false) {
			return false
		}
	}
	for _, n := range old.NotPre {
		if !st.assumePrefix(b, n, false) {
			return false
		}
	}
	return old.Pre == "" || st.assumePrefix(b, old.Pre, true)
}

// assumePrefix restricts to texts with a prefix, or without it.
func (st *State) assumePrefix(b Str, lit string, yes bool) bool {
	if p := b.P; len(p) > 0 && p[0].Sym == 0 {
		l := p[0].Lit
		if !strings.HasPrefix(l, lit) && !strings.HasPrefix(lit, l) {
			return !yes
		}
		if strings.HasPrefix(l, lit) {
			return yes
		}
		return st.assumePrefix(Str{P: p[1:]}, lit[len(l):], yes)
	}
	s := b.Single()
	if s == 0 {
		st.Undecided("the start of a text")
	}
	i := st.syms[s]
	switch {
	case strings.HasPrefix(i.Pre, lit):
		return yes
	case i.Pre != "" && !strings.HasPrefix(lit, i.Pre):
		return !yes
	}
	for _, n := range i.NotPre {
		if strings.HasPrefix(lit, n) {
			return !yes
		}
		if yes && strings.HasPrefix(n, lit) {
			st.Undecided("the start of a text")
		}
	}
	if yes {
		st.Update(s, func(i *SymInfo) { i.Pre = lit })
	} else {
		st.Update(s, func(i *SymInfo) { i.NotPre = addString(i.NotPre, lit) })
	}
	return true
}

// DecideStrEqual splits on a == b.
func (st *State) DecideStrEqual(a, b Str) bool {
	switch st.StrEqual(a, b) {
	case Yes:
		return true
	case No:
		return false
	}
	a, b = st.ResStr(a), st.ResStr(b)
	if _, ok := a.Const(); ok {
		a, b = b, a
	}
	if st.M.Unify {
		return st.Choose(2, func(x *State, i int) bool { return x.AssumeStrEqual(a, b, i == 1) }) == 1
	}
	if _, ok := b.Const(); !ok || a.Single() == 0 {
		bs := st.NewDef(types.Typ[types.Bool], "streq", a, b)
		if st.syms[bs].Set == nil {
			st.Update(bs, func(i *SymInfo) { i.Set = Range(0, 1) })
		}
		return st.DecideBool(Int{Base: bs})
	}
	return st.Choose(2, func(s *State, i int) bool { return s.AssumeStrEqual(a, b, i == 1) }) == 1
}

// DecidePrefix splits on strings.HasPrefix(s, lit).
func (st *State) DecidePrefix(s Str, lit string) bool {
	s = st.ResStr(s)
	if c, ok := s.Const(); ok {
		return strings.HasPrefix(c, lit)
	}
	if lit == "" {
		return true
	}
	if p := s.P[0]; p.Sym == 0 {
		if strings.HasPrefix(p.Lit, lit) {
			return true
		}
		if len(p.Lit) >= len(lit) || !strings.HasPrefix(lit, p.Lit) {
			return false
		}
		// The rest decides.
		return st.DecidePrefix(Str{P: s.P[1:]}, lit[len(p.Lit):])
	}
	sym := s.P[0].Sym
	if s.Single() == 0 {
		// Approximate: a symbol followed by something.
		d := st.NewDef(types.Typ[types.Bool], "prefix", s, Lit(lit))
		if st.syms[d].Set == nil {
			st.Update(d, func(i *SymInfo) { i.Set = Range(0, 1) })
		}
		return st.DecideBool(Int{Base: d})
	}
	si := st.syms[sym]
	if strings.HasPrefix(si.Pre, lit) {
		return true
	}
	if !strings.HasPrefix(lit, si.Pre) {
		return false
	}
	for _, n := range si.NotPre {
		if strings.HasPrefix(lit, n) {
			return false
		}
	}
	if si.Len != nil {
		if _, hi := st.set(*si.Len).Bounds(); hi < int64(len(lit)) {
			return false
		}
	}
	exact := true
	for i := 0; i < len(lit); i++ {
		if b, ok := st.byteSet(sym, i); ok {
			if !b.Contains(int64(lit[i])) {
				return false
			}
			if _, one := b.Single(); one {
				continue
			}
		}
		exact = false
	}
	if exact {
		return true
	}
	return st.Choose(2, func(s *State, i int) bool {
		if i == 1 {
			s.Update(sym, func(x *SymInfo) { x.Pre = lit })
			if l := s.syms[sym].Len; l != nil {
				return s.RefineSet(*l, IntSet{{int64(len(lit)), maxInt}})
			}
			return true
		}
		s.Update(sym, func(x *SymInfo) {
			x.NotPre = append(append([]string(nil), x.NotPre...), lit)
			sort.Strings(x.NotPre)
		})
		return true
	}) == 1
}

// StrIndex is the byte at an index.
func (st *State) StrIndex(s Str, idx Int) Value {
	s, idx = st.ResStr(s), st.ResInt(idx)
	if c, ok := st.M.Client.(StrIndexer); ok {
		if v, ok := c.IndexHook(st, s, idx); ok {
			return v
		}
	}
	if idx.IsConst() {
		off := idx.Off
		for _, p := range s.P {
			if p.Sym == 0 {
				if off < int64(len(p.Lit)) {
					return K(int64(p.Lit[off]))
				}
				off -= int64(len(p.Lit))
				continue
			}
			if pre := st.syms[p.Sym].Pre; off < int64(len(pre)) {
				return K(int64(pre[off]))
			}
			d := st.NewDef(types.Typ[types.Byte], "byteat", SymStr(p.Sym), K(off))
			if st.syms[d].Set == nil {
				set := Range(0, 255)
				if off == 0 {
					for _, n := range st.syms[p.Sym].NotPre {
						if len(n) == 1 {
							set = set.Minus(Range(int64(n[0]), int64(n[0])))
						}
					}
				}
				st.Update(d, func(i *SymInfo) { i.Set = set })
			}
			return Int{Base: d}
		}
	}
	d := st.NewDef(types.Typ[types.Byte], "byteat", s, idx)
	if st.syms[d].Set == nil {
		st.Update(d, func(i *SymInfo) { i.Set = Range(0, 255) })
	}
	return Int{Base: d}
}

// StrSlice is s[lo:hi]; hi is nil for the end.
func (st *State) StrSlice(s Str, lo Int, hi *Int) Str {
	s, lo = st.ResStr(s), st.ResInt(lo)
	if hi != nil {
		h := st.ResInt(*hi)
		hi = &h
		if st.Equal(h, st.StrLen(s)) == Yes {
			hi = nil
		}
	}
	if c, ok := s.Const(); ok && lo.IsConst() {
		end := int64(len(c))
		if hi == nil {
			return Lit(c[lo.Off:])
		}
		if hi.IsConst() && lo.Off <= hi.Off && hi.Off <= end {
			return Lit(c[lo.Off:hi.Off])
		}
	}
	if lo.IsConst() && hi == nil {
		off := lo.Off
		parts := s.P
		for off > 0 && len(parts) > 0 && parts[0].Sym == 0 {
			if int64(len(parts[0].Lit)) <= off {
				off -= int64(len(parts[0].Lit))
				parts = parts[1:]
				continue
			}
			parts = append([]StrPart{{Lit: parts[0].Lit[off:]}}, parts[1:]...)
			off = 0
		}
		s = Str{P: parts}
		if off == 0 {
			return s
		}
		lo = K(off)
	}
	if lo.IsConst() && hi != nil && hi.IsConst() && len(s.P) > 0 {
		// Within a known start.
		start := s.P[0].Lit
		if s.P[0].Sym != 0 {
			start = st.syms[s.P[0].Sym].Pre
		}
		if 0 <= lo.Off && lo.Off <= hi.Off && hi.Off <= int64(len(start)) {
			return Lit(start[lo.Off:hi.Off])
		}
	}
	args := []Value{s, lo}
	if hi != nil {
		args = append(args, *hi)
	}
	known := len(st.syms)
	d := st.NewDef(types.Typ[types.String], "substr", args...)
	if int(d) == known && hi == nil && lo.IsConst() {
		// The length is that of s minus lo.
		l := st.StrLen(s).Add(-lo.Off)
		st.Update(d, func(i *SymInfo) { i.Len = &l })
		if sym := s.Single(); sym != 0 {
			if pre := st.syms[sym].Pre; int64(len(pre)) > lo.Off {
				st.Update(d, func(i *SymInfo) { i.Pre = pre[lo.Off:] })
			}
		}
	} else if int(d) == known && hi != nil && lo.Base == hi.Base {
		l := K(hi.Off - lo.Off)
		st.Update(d, func(i *SymInfo) { i.Len = &l })
	}
	return SymStr(d)
}

// ---- interfaces and pointers

// DecideDyn splits on the dynamic type of an interface symbol.
func (st *State) DecideDyn(s Sym, t types.Type) bool {
	si := st.syms[s]
	if si.Dyn != nil {
		return types.Identical(si.Dyn, t)
	}
	if si.Nil == Yes {
		return false
	}
	for _, n := range si.NotDyn {
		if types.Identical(n, t) {
			return false
		}
	}
	if cands := st.M.Client.Candidates(st, s); cands != nil {
		found := false
		for _, c := range cands {
			if types.Identical(c, t) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return st.Choose(2, func(x *State, i int) bool {
		if i == 1 {
			x.SetDyn(s, t)
			return true
		}
		x.Update(s, func(i *SymInfo) {
			i.NotDyn = append(append([]types.Type(nil), i.NotDyn...), t)
			sort.Slice(i.NotDyn, func(a, b int) bool { return TypeKey(i.NotDyn[a]) < TypeKey(i.NotDyn[b]) })
		})
		return x.Possible(s)
	}) == 1
}

// Possible says whether an interface symbol can still be anything.
func (st *State) Possible(s Sym) bool {
	si := st.syms[s]
	cands := st.M.Client.Candidates(st, s)
	if cands == nil || si.Dyn != nil || si.Nil != No {
		return true
	}
	return len(st.Remaining(s)) > 0
}

// Remaining are the candidate types that are not excluded.
func (st *State) Remaining(s Sym) []types.Type {
	si := st.syms[s]
	var out []types.Type
next:
	for _, c := range st.M.Client.Candidates(st, s) {
		for _, n := range si.NotDyn {
			if types.Identical(n, c) {
				continue next
			}
		}
		out = append(out, c)
	}
	return out
}

// SetDyn fixes the dynamic type of an interface symbol.
func (st *State) SetDyn(s Sym, t types.Type) {
	inner := st.M.Client.Inner(st, s, t)
	st.Update(s, func(i *SymInfo) {
		i.Dyn, i.Nil, i.Inner, i.NotDyn = t, No, inner, nil
	})
}

// DecideNil splits on v == nil.
func (st *State) DecideNil(v Value) bool {
	switch v := st.Resolve(v).(type) {
	case Nil:
		return true
	case SymV:
		si := st.syms[v.S]
		if si.Nil != Unknown {
			return si.Nil == Yes
		}
		return st.Choose(2, func(s *State, i int) bool {
			if i == 1 {
				s.Update(v.S, func(x *SymInfo) { x.Nil = Yes })
				return true
			}
			s.Update(v.S, func(x *SymInfo) { x.Nil = No })
			return s.Possible(v.S)
		}) == 1
	case SliceV:
		o := st.objs[v.Obj]
		if !o.Input || st.Less(K(0), v.Len, false) == Yes {
			return false
		}
		// An empty list of the input may be nil.
		return st.DecideTop()
	case Top:
		return st.DecideTop()
	}
	return false
}

// Deref returns the object and path that a pointer value refers to, raising a run-time
// panic where it may be nil.
func (st *State) Deref(v Value, t types.Type) Ptr {
	v = st.Resolve(v)
	switch p := v.(type) {
	case Ptr:
		return p
	case Nil:
		st.Raise("nil pointer dereference")
	case SymV:
		if st.syms[p.S].Nil == Unknown && st.DecideNil(p) {
			st.Raise("nil pointer dereference")
		}
		return Ptr{Obj: st.Materialise(p.S)}
	case Top:
		st.Undecided("dereference of an unknown pointer")
	default:
		st.Undecided("dereference of %T", v)
	}
	return Ptr{}
}

// Materialise creates the object behind a pointer symbol.
func (st *State) Materialise(s Sym) ObjID {
	si := st.syms[s]
	if si.Obj != 0 {
		return si.Obj
	}
	pt := si.T.Underlying().(*types.Pointer)
	id := st.NewObj(&Obj{Kind: Cell, T: pt.Elem(), Input: true, Label: si.Label})
	if si.Def != nil {
		st.objs[id].Src = s
	}
	st.Update(s, func(i *SymInfo) { i.Obj, i.Nil = id, No })
	v := st.M.Client.NewInput(st, pt.Elem(), s)
	st.UpdateObj(id, func(o *Obj) { o.V = v })
	return id
}

// ---- heap

// Object returns a heap object.
func (st *State) Object(id ObjID) *Obj { return st.objs[id] }

// NewObj adds a heap object.
func (st *State) NewObj(o *Obj) ObjID {
	st.objs = append(st.objs, o)
	return ObjID(len(st.objs) - 1)
}

// UpdateObj changes a heap object.
func (st *State) UpdateObj(id ObjID, f func(o *Obj)) {
	c := st.objs[id].clone()
	f(c)
	st.objs[id] = c
}

var typeKeys sync.Map

// TypeKey is a short unique name of a type.
func TypeKey(t types.Type) string {
	if t == nil {
		return "nil"
	}
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := typeKey(t)
	typeKeys.Store(t, k)
	return k
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// TypeName is a readable name of a type.
func TypeName(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// Describe is a readable form of a value.
func (st *State) Describe(v Value) string {
	v = st.Resolve(v)
	switch x := v.(type) {
	case SymV:
		return st.DescribeSym(x.S)
	case Iface:
		return TypeName(x.T) + " " + st.Describe(x.V)
	case Ptr:
		o := st.objs[x.Obj]
		if o.Label != "" {
			return o.Label
		}
		return "a " + TypeName(o.T)
	case Str:
		var out []string
		for _, p := range x.P {
			if p.Sym != 0 {
				out = append(out, st.DescribeSym(p.Sym))
			} else {
				out = append(out, fmt.Sprintf("%q", p.Lit))
			}
		}
		return strings.Join(out, "+")
	case Int:
		if x.Base == 0 {
			return fmt.Sprint(x.Off)
		}
		return fmt.Sprintf("%s+%d", st.DescribeSym(x.Base), x.Off)
	case Nil:
		return "nil"
	case Tag:
		return x.S
	}
	return fmt.Sprintf("%T", v)
}

// DescribeSym is a readable form of a symbol.
func (st *State) DescribeSym(s Sym) string {
	si := st.syms[s]
	if si.Def != nil {
		var args []string
		for _, a := range si.Def.Args {
			args = append(args, st.Describe(a))
		}
		return si.Def.Op + "(" + strings.Join(args, ", ") + ")"
	}
	if si.Label != "" {
		return si.Label
	}
	return "an unknown " + TypeName(si.T)
}

// FactNo says whether the fact op(args) is known not to hold.
func (st *State) FactNo(op string, args ...Value) bool {
	s, ok := st.fact(op, args...)
	return ok && s.Subset(Range(0, 0))
}

// FactYes says whether the fact op(args) is known to hold.
func (st *State) FactYes(op string, args ...Value) bool {
	s, ok := st.fact(op, args...)
	return ok && s.Subset(Range(1, 1))
}

func (st *State) fact(op string, args ...Value) (IntSet, bool) {
	key := st.rawKey(append([]Value{Tag{op}}, args...))
	for _, si := range st.syms {
		if si != nil && si.Def != nil && si.Def.Op == "fact" && st.rawKey(si.Def.Args) == key {
			return si.IntSetOf(), true
		}
	}
	return nil, false
}

// ByteFact is what is known about the byte of a string symbol at a position.
func (st *State) ByteFact(s Sym, pos Int) (IntSet, bool) {
	pos = st.ResInt(pos)
	if pos.IsConst() {
		if pre := st.syms[s].Pre; pos.Off < int64(len(pre)) {
			return Range(int64(pre[pos.Off]), int64(pre[pos.Off])), true
		}
	}
	key := st.rawKey([]Value{SymStr(s), pos})
	for _, si := range st.syms {
		if si != nil && si.Def != nil && si.Def.Op == "byteat" && st.rawKey(si.Def.Args) == key {
			return si.IntSetOf(), true
		}
	}
	return nil, false
}

// Objects is the number of objects, of which 0 is none.
func (st *State) Objects() int { return len(st.objs) }

// Copy is an independent copy.
func (st *State) Copy() *State {
	n := st.clone()
	n.choices, n.choiceIdx = nil, 0
	return n
}

// Globals are the package variables that the state knows.
func (st *State) Globals() map[*ssa.Global]ObjID { return st.globals }

// Phis are the values of the phis of a block, by slot.
func (st *State) Phis(b *ssa.BasicBlock) map[int]Value {
	out := map[int]Value{}
	fi := st.M.info(st.Fn)
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v := st.regs[fi.slot[phi]]; v != nil {
			out[fi.slot[phi]] = v
		}
	}
	return out
}

// SetPhi changes the value of a phi.
func (st *State) SetPhi(b *ssa.BasicBlock, slot int, v Value) { st.regs[slot] = v }

// Counted says whether a loop counts or ranges over something.
func (st *State) Counted(head *ssa.BasicBlock) bool {
	for _, in := range head.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			if isCounter(x) {
				return true
			}
		case *ssa.Next:
			return true
		}
	}
	return false
}

// DropDefs forgets the facts with the given operation and arguments.
func (st *State) DropDefs(match func(d *Term) bool) {
	for i, si := range st.syms {
		if si != nil && si.Def != nil && match(si.Def) {
			st.Update(Sym(i), func(i *SymInfo) { i.Def = nil })
		}
	}
}
