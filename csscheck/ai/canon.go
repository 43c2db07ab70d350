package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// collector copies the part of a state that is reachable from roots, numbering objects and
// symbols in the order in which they are met.
type collector struct {
	src, dst *State
	om       []ObjID
	sm       []Sym
	oq       []ObjID
	sq       []Sym
}

func newCollector(src *State) *collector {
	dst := &State{M: src.M, Sum: src.Sum, Fn: src.Fn, Blk: src.Blk, PC: src.PC, trace: src.trace, node: src.node, prog: src.prog}
	dst.objs = []*Obj{nil}
	dst.syms = []*SymInfo{nil}
	return &collector{src: src, dst: dst, om: make([]ObjID, len(src.objs)), sm: make([]Sym, len(src.syms))}
}

func (c *collector) obj(id ObjID) ObjID {
	if id == 0 {
		return 0
	}
	if n := c.om[id]; n != 0 {
		return n
	}
	c.dst.objs = append(c.dst.objs, nil)
	n := ObjID(len(c.dst.objs) - 1)
	c.om[id] = n
	c.oq = append(c.oq, id)
	return n
}

func (c *collector) sym(s Sym) Sym {
	if s == 0 {
		return 0
	}
	if n := c.sm[s]; n != 0 {
		return n
	}
	c.dst.syms = append(c.dst.syms, nil)
	n := Sym(len(c.dst.syms) - 1)
	c.sm[s] = n
	c.sq = append(c.sq, s)
	return n
}

func (c *collector) int(i Int) Int {
	i = c.src.ResInt(i)
	return Int{c.sym(i.Base), i.Off}
}

func (c *collector) val(v Value) Value {
	switch v := v.(type) {
	case nil, Top, Nil, Tag:
		return v
	case Int:
		return c.int(v)
	case Str:
		v = c.src.ResStr(v)
		if len(v.P) == 0 {
			return v
		}
		out := make([]StrPart, len(v.P))
		for i, p := range v.P {
			out[i] = StrPart{p.Lit, c.sym(p.Sym)}
		}
		return Str{out}
	case SymV:
		r := c.src.Resolve(v)
		if s, ok := r.(SymV); ok {
			return SymV{c.sym(s.S)}
		}
		return c.val(r)
	case Ptr:
		p := Ptr{Obj: c.obj(v.Obj)}
		if len(v.Path) > 0 {
			p.Path = make([]Sel, len(v.Path))
			for i, s := range v.Path {
				p.Path[i] = Sel{s.Field, c.int(s.Idx), s.Elem}
			}
		}
		return p
	case StructV:
		return StructV{c.vals(v.F)}
	case Iface:
		return Iface{v.T, c.val(v.V)}
	case FuncV:
		return FuncV{v.Fn, c.vals(v.B), v.Native}
	case SliceV:
		return SliceV{c.obj(v.Obj), c.int(v.Lo), c.int(v.Len), v.Full, v.Whole}
	case TupleV:
		return TupleV{c.vals(v.V)}
	case IterV:
		return IterV{c.val(v.X), v.Count, c.int(v.Pos)}
	}
	panic(fmt.Sprintf("collect: %T", v))
}

func (c *collector) vals(vs []Value) []Value {
	if vs == nil {
		return nil
	}
	out := make([]Value, len(vs))
	for i, v := range vs {
		out[i] = c.val(v)
	}
	return out
}

func (c *collector) info(si *SymInfo) *SymInfo {
	n := si.clone()
	n.Obj = c.obj(si.Obj)
	if si.Inner != nil {
		n.Inner = c.val(si.Inner)
	}
	if si.Len != nil {
		l := c.int(*si.Len)
		n.Len = &l
	}
	if si.Is != nil {
		is := c.val(*si.Is).(Str)
		n.Is = &is
	}
	if si.Def != nil {
		n.Def = &Term{si.Def.Op, c.vals(si.Def.Args)}
	}
	return n
}

func (c *collector) object(o *Obj) *Obj {
	n := o.clone()
	n.V = c.val(o.V)
	n.Len = c.int(o.Len)
	n.Src = c.sym(o.Src)
	if o.Segs != nil {
		n.Segs = make([]Seg, len(o.Segs))
		for i, s := range o.Segs {
			n.Segs[i] = Seg{Elem: c.val(s.Elem), Of: c.obj(s.Of), Lo: c.int(s.Lo), Hi: c.int(s.Hi), Tag: s.Tag, Rest: s.Rest, Min: s.Min}
		}
	}
	if o.Elems != nil {
		n.Elems = make([]Elem, len(o.Elems))
		for i, e := range o.Elems {
			n.Elems[i] = Elem{c.int(e.Idx), c.val(e.V)}
		}
	}
	if o.Entries != nil {
		n.Entries = make([]Entry, len(o.Entries))
		for i, e := range o.Entries {
			n.Entries[i] = Entry{c.val(e.K), c.val(e.V)}
		}
	}
	return n
}

// weakOps are terms that state facts about their arguments: they live as long as these.
var weakOps = map[string]bool{"fs": true, "read": true, "json": true, "byteat": true, "streq": true, "prefix": true, "contains": true, "fact": true, "requested": true}

// numberOps are terms of numbers. If terms are unified, they live as long as their arguments, too.
var numberOps = map[string]bool{"ParseFloat": true, "FormatFloat": true, "+": true, "-": true, "*": true, "/": true, "negative": true}

func (c *collector) drain() {
	for {
		for len(c.oq) > 0 || len(c.sq) > 0 {
			if len(c.oq) > 0 {
				id := c.oq[0]
				c.oq = c.oq[1:]
				c.dst.objs[c.om[id]] = c.object(c.src.objs[id])
				continue
			}
			s := c.sq[0]
			c.sq = c.sq[1:]
			c.dst.syms[c.sm[s]] = c.info(c.src.syms[s])
		}
		// Facts whose arguments are all reachable.
		more := false
		for s, si := range c.src.syms {
			if si == nil || c.sm[s] != 0 || si.Def == nil {
				continue
			}
			if !(weakOps[si.Def.Op] && (si.Set != nil || si.Nil != Unknown)) && !(c.src.M.Unify && numberOps[si.Def.Op]) {
				continue
			}
			if c.reached(si.Def.Args) {
				c.sym(Sym(s))
				more = true
			}
		}
		if !more {
			return
		}
	}
}

// reached says whether all symbols and objects in values are in the copy.
func (c *collector) reached(vs []Value) bool {
	ok := true
	any := false
	var walk func(v Value)
	walk = func(v Value) {
		switch v := v.(type) {
		case Int:
			v = c.src.ResInt(v)
			if v.Base != 0 {
				any = true
				ok = ok && c.sm[v.Base] != 0
			}
		case Str:
			for _, p := range c.src.ResStr(v).P {
				if p.Sym != 0 {
					any = true
					ok = ok && c.sm[p.Sym] != 0
				}
			}
		case SymV:
			any = true
			ok = ok && c.sm[v.S] != 0
		case Ptr:
			any = true
			ok = ok && c.om[v.Obj] != 0
		case SliceV:
			any = true
			ok = ok && c.om[v.Obj] != 0
		case Iface:
			walk(v.V)
		case StructV:
			for _, f := range v.F {
				walk(f)
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
	return ok && any
}

// rels projects the relations to the symbols in the copy.
func (c *collector) rels() {
	rels := append([]Rel(nil), c.src.rels...)
	gone := map[Sym]bool{}
	for _, r := range rels {
		if c.sm[r.A] == 0 {
			gone[r.A] = true
		}
		if c.sm[r.B] == 0 {
			gone[r.B] = true
		}
	}
	var list []Sym
	for s := range gone {
		list = append(list, s)
	}
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	for _, x := range list {
		var in, out, rest []Rel
		for _, r := range rels {
			switch {
			case r.A == x && r.B == x:
			case r.B == x:
				in = append(in, r)
			case r.A == x:
				out = append(out, r)
			default:
				rest = append(rest, r)
			}
		}
		lo, hi := c.src.syms[x].IntSetOf().Bounds()
		for _, a := range in {
			for _, b := range out {
				if a.A != b.B {
					rest = addRelTo(rest, Rel{a.A, b.B, a.C + b.C})
				}
			}
			if hi != maxInt && c.sm[a.A] != 0 { // a.A <= x + C <= hi + C
				c.bound(a.A, IntSet{{minInt, hi + a.C}})
			}
		}
		for _, b := range out {
			if lo != minInt && c.sm[b.B] != 0 { // b.B >= x - C >= lo - C
				c.bound(b.B, IntSet{{lo - b.C, maxInt}})
			}
		}
		rels = rest
	}
	for id, n := range c.om {
		if n != 0 && c.src.objs[id] != nil && c.src.objs[id].Ext != 0 {
			c.dst.objs[n].Ext = c.om[c.src.objs[id].Ext]
		}
	}
	var out []Rel
	for _, r := range rels {
		a, b := c.sm[r.A], c.sm[r.B]
		if a == 0 || b == 0 || a == b {
			continue
		}
		// Implied by the bounds?
		_, ha := c.dst.syms[a].IntSetOf().Bounds()
		lb, _ := c.dst.syms[b].IntSetOf().Bounds()
		if ha != maxInt && lb != minInt && ha-lb <= r.C {
			continue
		}
		out = addRelTo(out, Rel{a, b, r.C})
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].A != out[j].A {
			return out[i].A < out[j].A
		}
		return out[i].B < out[j].B
	})
	c.dst.rels = out
}

func (c *collector) bound(s Sym, set IntSet) {
	i := c.dst.syms[c.sm[s]]
	n := i.IntSetOf().Intersect(set)
	if n.Empty() {
		panic(infeasible{})
	}
	if i.Set == nil || n.String() != i.Set.String() {
		x := i.clone()
		x.Set = n
		c.dst.syms[c.sm[s]] = x
	}
}

func addRelTo(rels []Rel, r Rel) []Rel {
	for i, o := range rels {
		if o.A == r.A && o.B == r.B {
			if r.C < o.C {
				rels[i].C = r.C
			}
			return rels
		}
	}
	return append(rels, r)
}

func (c *collector) environment() {
	src, dst := c.src, c.dst
	dst.Ghost = map[string]Value{}
	for _, k := range sortedGhost(src.Ghost) {
		dst.Ghost[k] = c.val(src.Ghost[k])
	}
	dst.globals = map[*ssa.Global]ObjID{}
	for _, g := range sortedGlobals(src.globals) {
		dst.globals[g] = c.obj(src.globals[g])
	}
}

func sortedGhost(m map[string]Value) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedGlobals(m map[*ssa.Global]ObjID) []*ssa.Global {
	out := make([]*ssa.Global, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// pin keeps the entry objects and symbols at their numbers.
func (c *collector) pin() {
	c.dst.pinObjs, c.dst.pinSyms = c.src.pinObjs, c.src.pinSyms
	for i := 1; i <= c.src.pinObjs; i++ {
		c.obj(ObjID(i))
	}
	for i := 1; i <= c.src.pinSyms; i++ {
		c.sym(Sym(i))
	}
}

// Normalise renumbers a state, keeping only the registers that keep says.
func (st *State) normalise(keep []bool) *State {
	c := newCollector(st)
	c.pin()
	c.environment()
	d := c.dst
	d.regs = make([]Value, len(st.regs))
	for i, v := range st.regs {
		if v != nil && (keep == nil || keep[i]) {
			d.regs[i] = c.val(v)
		}
	}
	for _, df := range st.defers {
		d.defers = append(d.defers, deferred{Fn: c.val(df.Fn), Args: c.vals(df.Args), In: df.In, Call: df.Call})
	}
	d.panicking = c.val(st.panicking)
	d.recoverable = c.val(st.recoverable)
	d.recovered = st.recovered
	d.unwinding = st.unwinding
	d.result = c.val(st.result)
	c.drain()
	c.rels()
	if dr, ok := st.M.Client.(Dropper); ok {
		if dr.Dropped(st, func(o ObjID) bool { return c.om[o] != 0 }, func(s Sym) bool { return c.sm[s] != 0 }) {
			return st.normalise(keep)
		}
	}
	return d
}

// key is a text that is the same for states that are the same.
func (st *State) key() string {
	var b strings.Builder
	for i, v := range st.regs {
		if v != nil {
			wn(&b, "r", int64(i))
			b.WriteByte('=')
			writeRaw(&b, v)
			b.WriteByte('\n')
		}
	}
	for _, k := range sortedGhost(st.Ghost) {
		fmt.Fprintf(&b, "g%s=", k)
		writeRaw(&b, st.Ghost[k])
		b.WriteByte('\n')
	}
	for _, g := range sortedGlobals(st.globals) {
		fmt.Fprintf(&b, "G%s=%d\n", g.Name(), st.globals[g])
	}
	for _, d := range st.defers {
		fmt.Fprintf(&b, "d%p", d.In)
		if d.Fn != nil {
			writeRaw(&b, d.Fn)
		}
		for _, a := range d.Args {
			writeRaw(&b, a)
		}
		b.WriteByte('\n')
	}
	if st.panicking != nil {
		b.WriteString("panic ")
		writeRaw(&b, st.panicking)
	}
	if st.recoverable != nil {
		b.WriteString("recoverable ")
		writeRaw(&b, st.recoverable)
	}
	fmt.Fprintf(&b, "f%v%v", st.recovered, st.unwinding)
	if st.result != nil {
		b.WriteString("result ")
		writeRaw(&b, st.result)
	}
	for i, o := range st.objs {
		if o == nil {
			continue
		}
		wn(&b, "\no", int64(i))
		b.WriteByte(' ')
		writeObj(&b, o)
	}
	for i, s := range st.syms {
		if s == nil {
			continue
		}
		wn(&b, "\ns", int64(i))
		b.WriteByte(' ')
		writeInfo(&b, s)
	}
	for _, r := range st.rels {
		wn(&b, "\n", int64(r.A))
		wn(&b, "-", int64(r.B))
		wn(&b, "<=", r.C)
	}
	return b.String()
}

func writeObj(b *strings.Builder, o *Obj) {
	wn(b, "k", int64(o.Kind))
	if o.Input {
		b.WriteString(" in")
	}
	b.WriteByte(' ')
	b.WriteString(o.Label)
	wn(b, " f", int64(o.Flags))
	if o.Data != nil {
		fmt.Fprintf(b, " D%v", o.Data)
	}
	if o.T != nil {
		b.WriteString(" T")
		b.WriteString(TypeKey(o.T))
	}
	if o.Src != 0 {
		fmt.Fprintf(b, " s%d", o.Src)
	}
	switch o.Kind {
	case Cell:
		b.WriteByte(' ')
		writeRaw(b, o.V)
	case List:
		wn(b, " len", int64(o.Len.Base))
		wn(b, "+", o.Len.Off)
		wn(b, " x", int64(o.Ext))
		for _, s := range o.Segs {
			switch {
			case s.Rest:
				fmt.Fprintf(b, " rest%d%s", s.Min, s.Tag)
			case s.Of != 0:
				fmt.Fprintf(b, " of%d[%d+%d:%d+%d]%s", s.Of, s.Lo.Base, s.Lo.Off, s.Hi.Base, s.Hi.Off, s.Tag)
			default:
				b.WriteString(" e")
				writeRaw(b, s.Elem)
			}
		}
		for _, e := range o.Elems {
			wn(b, " [", int64(e.Idx.Base))
			wn(b, "+", e.Idx.Off)
			b.WriteString("]=")
			writeRaw(b, e.V)
		}
	case Map:
		for _, e := range o.Entries {
			b.WriteByte(' ')
			writeRaw(b, e.K)
			b.WriteByte(':')
			if e.V != nil {
				writeRaw(b, e.V)
			}
		}
		fmt.Fprintf(b, " other%v", o.Other)
	}
}

func writeInfo(b *strings.Builder, s *SymInfo) {
	if s.T != nil {
		b.WriteString(TypeKey(s.T))
	}
	if s.Set != nil {
		fmt.Fprintf(b, " {%s}", s.Set)
	}
	if s.Nil != Unknown {
		wn(b, " nil", int64(s.Nil))
	}
	if s.Dyn != nil {
		b.WriteString(" dyn<")
		b.WriteString(TypeKey(s.Dyn))
		b.WriteByte('>')
	}
	for _, n := range s.NotDyn {
		b.WriteString(" not<")
		b.WriteString(TypeKey(n))
		b.WriteByte('>')
	}
	if s.Inner != nil {
		b.WriteString(" in ")
		writeRaw(b, s.Inner)
	}
	if s.Obj != 0 {
		fmt.Fprintf(b, " obj%d", s.Obj)
	}
	if s.Len != nil {
		wn(b, " len", int64(s.Len.Base))
		wn(b, "+", s.Len.Off)
	}
	if s.Eq != nil {
		fmt.Fprintf(b, " eq%q", *s.Eq)
	}
	if s.Is != nil {
		b.WriteString(" is ")
		writeRaw(b, *s.Is)
	}
	if len(s.Ne) > 0 {
		fmt.Fprintf(b, " ne%q", s.Ne)
	}
	if s.Pre != "" {
		fmt.Fprintf(b, " pre%q", s.Pre)
	}
	if len(s.NotPre) > 0 {
		fmt.Fprintf(b, " npre%q", s.NotPre)
	}
	if s.Def != nil {
		fmt.Fprintf(b, " def %s(", s.Def.Op)
		for _, a := range s.Def.Args {
			writeRaw(b, a)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	}
	if s.Label != "" {
		b.WriteString(" L" + s.Label)
	}
	if s.Data != nil {
		fmt.Fprintf(b, " D%v", s.Data)
	}
	if s.Flags != 0 {
		fmt.Fprintf(b, " F%d", s.Flags)
	}
}

// ---- generalisation at loop heads

const counterLabel = "counter"

// keepCounters says whether a loop is unrolled: one to a small constant is.
func (st *State) keepCounters(head *ssa.BasicBlock) bool {
	if st.M.Client.KeepCounters(st, head) {
		return true
	}
	br, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.LEQ && cmp.Op != token.NEQ {
		return false
	}
	if !isInteger(cmp.Y.Type()) {
		return false
	}
	fi := st.M.info(st.Fn)
	var v Value
	if c, ok := cmp.Y.(*ssa.Const); ok {
		v = K(c.Int64())
	} else if slot, ok := fi.slot[cmp.Y]; ok {
		v = st.regs[slot]
	}
	n, ok := v.(Int)
	if !ok {
		return false
	}
	n = st.ResInt(n)
	return n.IsConst() && n.Off >= 0 && n.Off <= 16
}

// generalise prepares a state that comes back to a loop head, so that the states at the
// head converge: counters become symbols, and elements of input lists are forgotten.
func (st *State) generalise(head *ssa.BasicBlock, live []bool) {
	if st.keepCounters(head) {
		return
	}
	st.foldCopies()
	fi := st.M.info(st.Fn)
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		slot := fi.slot[phi]
		v, ok := st.regs[slot].(Int)
		if !ok || !isCounter(phi) {
			continue
		}
		v = st.ResInt(v)
		if v.Base == 0 {
			st.introduce(v.Off)
		} else if st.syms[v.Base].Label == counterLabel && v.Off > 0 {
			st.rebase(v.Base, v.Off)
		} else if st.syms[v.Base].Label != counterLabel || v.Off < 0 {
			continue
		}
	}
	defer func() {
		// What has been read before the place where a loop is now.
		for _, in := range head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if v, ok := st.regs[fi.slot[phi]].(Int); ok && isCounter(phi) {
				st.forgetBytes(st.ResInt(v))
			}
		}
		for slot, v := range st.regs {
			if it, ok := v.(IterV); ok && live[slot] {
				st.forgetBytes(st.ResInt(it.Pos))
			}
		}
	}()
	for slot, v := range st.regs {
		if it, ok := v.(IterV); ok && live[slot] {
			pos := st.ResInt(it.Pos)
			if pos.Base == 0 && pos.Off > 0 {
				st.introduce(pos.Off)
			} else if pos.Base != 0 && st.syms[pos.Base].Label == counterLabel && pos.Off > 0 {
				st.rebase(pos.Base, pos.Off)
			}
		}
	}
	st.M.Client.LoopHead(st, head)
}

// forgetBytes drops what is known about the bytes of strings before an index.
func (st *State) forgetBytes(pos Int) {
	for s, si := range st.syms {
		if si == nil || si.Def == nil || si.Def.Op != "byteat" || si.Set == nil {
			continue
		}
		if idx, ok := si.Def.Args[1].(Int); ok && st.Less(st.ResInt(idx), pos, false) == Yes {
			n := si.clone()
			n.Set = nil
			st.syms[s] = n
		}
	}
}

// foldCopies turns elements of input lists at the ends of other lists into parts of the
// input lists.
func (st *State) foldCopies() {
	for id, o := range st.objs {
		if o == nil || o.Kind != List || o.Input || len(o.Segs) == 0 || !o.Segs[len(o.Segs)-1].IsElem() {
			continue
		}
		segs := append([]Seg(nil), o.Segs...)
		k := len(segs)
		for k > 0 && segs[k-1].IsElem() {
			k--
		}
		out := segs[:k:k]
		changed := false
		for _, s := range segs[k:] {
			of, idx, ok := st.isCopy(s.Elem)
			if !ok {
				out = append(out, s)
				continue
			}
			if n := len(out); n > 0 && out[n-1].Of == of && out[n-1].Tag == "" && st.Equal(out[n-1].Hi, idx) == Yes {
				out[n-1].Hi = idx.Add(1)
				changed = true
				continue
			}
			if !idx.IsConst() || idx.Off != 0 {
				out = append(out, s)
				continue
			}
			changed = true
			out = append(out, Seg{Of: of, Lo: idx, Hi: idx.Add(1)})
		}
		if changed {
			n := o.clone()
			n.Segs = out
			st.objs[id] = n
		}
	}
}

// isCopy says of which input list a value is an element.
func (st *State) isCopy(v Value) (ObjID, Int, bool) {
	v = st.Resolve(v)
	if i, ok := v.(Iface); ok {
		v = st.Resolve(i.V)
	}
	switch v.(type) {
	case SymV, Ptr:
	default:
		return 0, Int{}, false
	}
	for id, o := range st.objs {
		if o == nil || o.Kind != List || !o.Input {
			continue
		}
		for _, e := range o.Elems {
			x := st.Resolve(e.V)
			if i, ok := x.(Iface); ok {
				x = st.Resolve(i.V)
			}
			if st.SameValue(x, v) {
				return ObjID(id), st.ResInt(e.Idx), true
			}
		}
	}
	return 0, Int{}, false
}

// widen makes the integers in memory unknown that a loop counts up.
func (st *State) widen(head *ssa.BasicBlock) {
	fi := st.M.info(st.Fn)
	for _, b := range st.Fn.Blocks {
		if !head.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || !isInteger(s.Val.Type()) {
				continue
			}
			op, ok := s.Val.(*ssa.BinOp)
			if !ok {
				continue
			}
			ld, ok := op.X.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || !sameAddress(ld.X, s.Addr) {
				continue
			}
			slot, ok := fi.slot[s.Addr]
			if !ok || st.regs[slot] == nil {
				continue
			}
			p, ok := st.Resolve(st.regs[slot]).(Ptr)
			if !ok || len(p.Path) > 0 && p.Path[len(p.Path)-1].Elem {
				continue
			}
			st.poke(p, st.Unknown(s.Val.Type(), "count"))
		}
	}
}

func sameAddress(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && x.Field == y.Field && sameAddress(x.X, y.X)
}

// isCounter says whether a phi grows by constants around the loop.
func isCounter(phi *ssa.Phi) bool {
	if !isInteger(phi.Type()) {
		return false
	}
	for i, e := range phi.Edges {
		if isBackEdge(phi.Block().Preds[i], phi.Block()) {
			if grows, ok := growth(e, phi, map[ssa.Value]bool{}); !ok || !grows {
				return false
			}
		}
	}
	return true
}

// growth says whether a value is phi plus a constant that is not negative (ok), on some way
// positive (grows).
func growth(e ssa.Value, phi *ssa.Phi, seen map[ssa.Value]bool) (grows, ok bool) {
	if e == phi || seen[e] {
		return false, true
	}
	seen[e] = true
	switch x := e.(type) {
	case *ssa.BinOp:
		c, isConst := x.Y.(*ssa.Const)
		if x.Op != token.ADD || !isConst || c.Value == nil || c.Int64() < 0 {
			return false, false
		}
		g, ok := growth(x.X, phi, seen)
		return g || c.Int64() > 0, ok
	case *ssa.Phi:
		for _, f := range x.Edges {
			g, ok := growth(f, phi, seen)
			if !ok {
				return false, false
			}
			grows = grows || g
		}
		return grows, true
	}
	return false, false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// introduce replaces the counters that have the constant value c by a symbol of at least c.
func (st *State) introduce(c int64) {
	b := st.NewSym(SymInfo{T: types.Typ[types.Int], Set: IntSet{{c, maxInt}}, Label: counterLabel})
	for i, si := range st.syms {
		if si == nil || Sym(i) == b || si.Set == nil || si.T == nil || !isInteger(si.T) || si.Label != "len" {
			continue
		}
		if lo, _ := si.Set.Bounds(); lo != minInt && lo >= c {
			st.addRel(b, Sym(i), c-lo)
		}
	}
	st.substitute(func(i Int, role role) Int {
		if i.Base != 0 {
			return i
		}
		switch {
		case role == roleCounter && i.Off == c:
			return Int{Base: b}
		case role == roleEnd && (i.Off == c+1 || i.Off == c):
			return Int{Base: b, Off: i.Off - c}
		}
		return i
	})
}

// rebase replaces the symbol b by b' = b+n.
func (st *State) rebase(b Sym, n int64) {
	old := st.syms[b]
	lo, _ := old.IntSetOf().Bounds()
	b2 := st.NewSym(SymInfo{T: types.Typ[types.Int], Set: IntSet{{lo, maxInt}}, Label: counterLabel})
	for _, r := range append([]Rel(nil), st.rels...) {
		// b = b2 - n
		// Relations that would go on to change are widened.
		if r.A == b && r.C+n <= 1 {
			st.addRel(b2, r.B, r.C+n)
		}
		if r.B == b {
			c := r.C - n
			if c < -1 {
				c = -1
			}
			st.addRel(r.A, b2, c)
		}
	}
	st.substitute(func(i Int, _ role) Int {
		if i.Base == b {
			return Int{b2, i.Off - n}
		}
		return i
	})
}

type role int

const (
	roleOther role = iota
	roleCounter
	roleEnd
)

// substitute rewrites the integers of a state.
func (st *State) substitute(f func(i Int, r role) Int) {
	var val func(v Value, r role) Value
	vals := func(vs []Value, r role) []Value {
		if vs == nil {
			return nil
		}
		out := make([]Value, len(vs))
		for i, v := range vs {
			out[i] = val(v, r)
		}
		return out
	}
	val = func(v Value, r role) Value {
		switch v := v.(type) {
		case Int:
			return f(v, r)
		case Ptr:
			if len(v.Path) == 0 {
				return v
			}
			p := Ptr{Obj: v.Obj, Path: make([]Sel, len(v.Path))}
			for i, s := range v.Path {
				p.Path[i] = Sel{s.Field, s.Idx, s.Elem}
				if s.Elem {
					p.Path[i].Idx = f(s.Idx, roleOther)
				}
			}
			return p
		case StructV:
			return StructV{vals(v.F, roleOther)}
		case Iface:
			return Iface{v.T, val(v.V, roleOther)}
		case FuncV:
			return FuncV{v.Fn, vals(v.B, roleOther), v.Native}
		case SliceV:
			return SliceV{v.Obj, f(v.Lo, roleOther), f(v.Len, roleOther), v.Full, v.Whole}
		case TupleV:
			return TupleV{vals(v.V, roleOther)}
		case IterV:
			return IterV{val(v.X, roleOther), v.Count, f(v.Pos, roleCounter)}
		}
		return v
	}
	fi := st.M.info(st.Fn)
	counters := map[int]bool{}
	for _, in := range st.Blk.Instrs {
		if phi, ok := in.(*ssa.Phi); ok && isCounter(phi) {
			counters[fi.slot[phi]] = true
		}
	}
	for i, v := range st.regs {
		if v == nil {
			continue
		}
		r := roleOther
		if counters[i] {
			r = roleCounter
		}
		st.regs[i] = val(v, r)
	}
	for k, v := range st.Ghost {
		if e, ok := v.(Int); strings.HasPrefix(k, "=") || ok && e.Base == 0 && st.Sum.entry.Ghost[k] == v {
			// A value that is no position, or none of this function.
			st.Ghost[k] = val(v, roleOther)
			continue
		}
		st.Ghost[k] = val(v, roleEnd)
	}
	for i, d := range st.defers {
		st.defers[i].Args = vals(d.Args, roleOther)
		if d.Fn != nil {
			st.defers[i].Fn = val(d.Fn, roleOther)
		}
	}
	for id, o := range st.objs {
		if o == nil {
			continue
		}
		n := o.clone()
		n.V = val(o.V, roleOther)
		n.Len = f(o.Len, roleOther)
		n.Segs = append([]Seg(nil), o.Segs...)
		for i, s := range n.Segs {
			if s.IsElem() {
				n.Segs[i].Elem = val(s.Elem, roleOther)
			} else if s.Of != 0 {
				n.Segs[i].Lo, n.Segs[i].Hi = f(s.Lo, roleOther), f(s.Hi, roleEnd)
			}
		}
		n.Elems = append([]Elem(nil), o.Elems...)
		for i, e := range n.Elems {
			r := roleEnd
			if st.KnownElem(ObjID(id), e.Idx) {
				r = roleOther // none of this function
			}
			n.Elems[i] = Elem{f(e.Idx, r), val(e.V, roleOther)}
		}
		n.Entries = append([]Entry(nil), o.Entries...)
		for i, e := range n.Entries {
			n.Entries[i] = Entry{val(e.K, roleOther), val(e.V, roleOther)}
		}
		if len(n.Segs) == 0 {
			n.Segs = o.Segs
		}
		if len(n.Elems) == 0 {
			n.Elems = o.Elems
		}
		if len(n.Entries) == 0 {
			n.Entries = o.Entries
		}
		st.objs[id] = n
	}
	for s, si := range st.syms {
		if si == nil || si.Len == nil && si.Def == nil && si.Inner == nil {
			continue
		}
		n := si.clone()
		if si.Len != nil {
			l := f(*si.Len, roleOther)
			n.Len = &l
		}
		if si.Def != nil {
			n.Def = &Term{si.Def.Op, vals(si.Def.Args, roleOther)}
		}
		if si.Inner != nil {
			n.Inner = val(si.Inner, roleOther)
		}
		st.syms[s] = n
	}
}

// KnownElem says whether an element was known when the current function began.
func (st *State) KnownElem(list ObjID, idx Int) bool {
	if int(list) > st.pinObjs || int(idx.Base) > st.pinSyms {
		return false
	}
	for _, e := range st.Sum.entry.objs[list].Elems {
		if e.Idx == idx {
			return true
		}
	}
	return false
}

// ForgetElements drops what is known by index about input lists, unless keep says otherwise.
func (st *State) ForgetElements(keep func(list ObjID, idx Int) bool) {
	for id, o := range st.objs {
		if o == nil || o.Kind != List || !o.Input || len(o.Elems) == 0 {
			continue
		}
		var es []Elem
		if keep != nil {
			for _, e := range o.Elems {
				if keep(ObjID(id), e.Idx) {
					es = append(es, e)
				}
			}
		}
		n := o.clone()
		n.Elems = es
		st.objs[id] = n
	}
}

// Dump is a text of the state, for diagnosis.
func (st *State) Dump() string { return st.key() }
