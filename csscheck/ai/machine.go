package ai

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Client adapts the interpreter to a property.
type Client interface {
	// Candidates are the possible dynamic types of an interface symbol; nil: any.
	Candidates(st *State, s Sym) []types.Type
	// Inner is the value in an interface symbol of a given dynamic type.
	Inner(st *State, s Sym, t types.Type) Value
	// NewInput is the content of the object of type t behind the pointer symbol s.
	NewInput(st *State, t types.Type, s Sym) Value
	// NewElem is the element of an input list.
	NewElem(st *State, list ObjID, idx Int) Value
	// Global is the initial value of a package variable.
	Global(st *State, g *ssa.Global) Value
	// Call may model a call. args include the receiver. A handled call returns its result.
	Call(st *State, c *Call) (Value, bool)
	// Load may replace what is read from an object.
	Load(st *State, p Ptr, t types.Type) (Value, bool)
	// Store sees writes to the heap.
	Store(st *State, p Ptr, v Value)
	// LoopBack sees a state that comes back to a loop head, before it is generalised.
	LoopBack(st *State, head *ssa.BasicBlock)
	// LoopHead may fold a state that comes back to a loop head.
	LoopHead(st *State, head *ssa.BasicBlock)
	// KeepCounters says that a loop is to be unrolled.
	KeepCounters(st *State, head *ssa.BasicBlock) bool
	// Exit sees a state that leaves a function, before it is summarised.
	Exit(st *State)
	// Forget says whether what the function learns about its input is dropped at its exit.
	Forget(fn *ssa.Function) bool
	// MapLookup may model the lookup in a map.
	MapLookup(st *State, m Value, key Value, t *types.Map) (v Value, ok Value, handled bool)
	// MapUpdate may model the update of a map.
	MapUpdate(st *State, m Value, key, v Value) bool
	// MapNext may model a step of the iteration over a map. done is a boolean.
	MapNext(st *State, m Value, t *types.Map) (k, v Value, done Value, handled bool)
	// SegElem is an element of a segment of a list.
	SegElem(st *State, list ObjID, seg Seg, idx Value) (Value, bool)
	// SegLen is the length of a segment.
	SegLen(st *State, seg Seg) Int
}

// Overwriter is a Client that sees when the memory behind a slice is written: by copy, or by an
// append that may find room for more elements there.
type Overwriter interface {
	Overwrites(st *State, list ObjID)
}

// Call is a call that a client may model.
type Call struct {
	Fn     *ssa.Function // static callee, or nil
	Method *types.Func   // of an interface
	Name   string        // full name of the callee
	Args   []Value
	In     ssa.Instruction
	Common *ssa.CallCommon
}

// Summary is the set of states that leave a function for an entry state.
type Summary struct {
	ID      int
	Fn      *ssa.Function
	Key     string
	entry   *State
	exits   []*State
	exitKey map[string]bool
	waiters []*waiter
	seen    map[string]int // node by block and state
	visits  map[*ssa.BasicBlock]int
	node    int
	depth   int // of the first call
}

type waiter struct {
	st   *State
	om   []ObjID
	sm   []Sym
	cont func(n *State, result Value)
}

// Node is a point of the graph of abstract states.
type Node struct {
	Sum  *Summary
	What string
	Exit bool
}

// Edge is a step of the graph. Via is the summary that it steps over, or 0.
type Edge struct {
	From, To int
	Prog     bool
	Via      *Summary
	ViaExit  int
}

// Finding is something that is wrong.
type Finding struct{ Key, Msg string }

// Machine runs the analysis.
type Machine struct {
	Prog   *ssa.Program
	Fset   *token.FileSet
	Client Client
	InRepo func(fn *ssa.Function) bool
	PosOf  func(p token.Pos) string
	Limit  int  // states per block and summary
	Budget int  // steps in all
	Unify  bool // terms are the same in and after calls
	Enough int  // steps after the first finding; 0 is no limit
	Depth  int  // how deeply calls may nest; 0 is no limit

	Top *Summary // what Start analyses

	work  []*State
	sums  map[string]*Summary
	Sums  []*Summary
	infos map[*ssa.Function]*fnInfo

	Nodes []Node
	Edges []Edge
	calls []Edge // To is the entry node of a summary
	edges map[Edge]bool

	Findings []Finding
	found    map[string]bool
	Steps    int
	Merges   int
	Trouble  []string
	Debug    bool
	liveAt   map[ssa.Instruction][]bool
	pures    map[*ssa.Function]bool
	stopped  bool
	cut      bool // stopped for what was found
}

type fnInfo struct {
	slot   map[ssa.Value]int
	n      int
	live   map[*ssa.BasicBlock][]bool
	always []bool
}

// NewMachine makes a machine.
func NewMachine(prog *ssa.Program, client Client) *Machine {
	return &Machine{
		Prog: prog, Fset: prog.Fset, Client: client,
		Limit: 400, Budget: 3000000,
		sums: map[string]*Summary{}, infos: map[*ssa.Function]*fnInfo{}, edges: map[Edge]bool{}, found: map[string]bool{},
		Nodes: make([]Node, 1),
	}
}

// Report records a finding once.
func (m *Machine) Report(key, format string, args ...interface{}) {
	if m.found[key] {
		return
	}
	m.found[key] = true
	if m.Debug {
		fmt.Println("REPORT", key, fmt.Sprintf(format, args...))
	}
	m.Findings = append(m.Findings, Finding{key, fmt.Sprintf(format, args...)})
	m.bad()
}

// bad is called with each finding. Something is wrong for sure, so not much more is analysed.
func (m *Machine) bad() {
	if limit := m.Steps + m.Enough; m.Enough > 0 && limit < m.Budget {
		m.Budget, m.cut = limit, true
	}
}

// Pos is the position of an instruction, or of one near to it.
func (m *Machine) Pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		// The nearest position in the block.
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == in && p.IsValid() {
				break
			}
		}
	}
	if !p.IsValid() {
		p = in.Parent().Pos()
	}
	if m.PosOf != nil {
		return m.PosOf(p)
	}
	return m.Fset.Position(p).String()
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi := m.infos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{slot: map[ssa.Value]int{}, live: map[*ssa.BasicBlock][]bool{}}
	m.infos[fn] = fi
	add := func(v ssa.Value) { fi.slot[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	use := func(set []bool, v ssa.Value) {
		if s, ok := fi.slot[v]; ok {
			set[s] = true
		}
	}
	fi.always = make([]bool, fi.n)
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			var ops [8]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if *op != nil {
					use(fi.always, *op)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		fi.live[b] = append([]bool(nil), fi.always...)
	}
	// live[b]: the registers live after the phis of b, with the phis themselves if they are used.
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := append([]bool(nil), fi.always...)
			for _, s := range b.Succs {
				for j, l := range fi.live[s] {
					if l {
						cur[j] = true
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					used := fi.live[s][fi.slot[phi]]
					cur[fi.slot[phi]] = fi.always[fi.slot[phi]]
					if used {
						for k, p := range s.Preds {
							if p == b {
								use(cur, phi.Edges[k])
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok && !fi.always[fi.slot[v]] {
					cur[fi.slot[v]] = false
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil {
						use(cur, *op)
					}
				}
			}
			for j := range cur {
				if cur[j] && !fi.live[b][j] {
					fi.live[b][j] = true
					changed = true
				}
			}
		}
	}
	return fi
}

func isMerge(b *ssa.BasicBlock) bool { return len(b.Preds) > 1 }

func isBackEdge(from, to *ssa.BasicBlock) bool { return to.Dominates(from) }

// NewState makes an empty state, in which a client builds the arguments of Start.
func (m *Machine) NewState() *State {
	return &State{M: m, objs: []*Obj{nil}, syms: []*SymInfo{nil}, globals: map[*ssa.Global]ObjID{}, Ghost: map[string]Value{}}
}

// Start analyses a function from an entry state and runs until everything is explored.
func (m *Machine) Start(fn *ssa.Function, st *State, args []Value, free []Value) *Summary {
	s, _, _ := m.summary(st, fn, args, free, nil)
	m.Top = s
	m.drive()
	return s
}

// Exits are the states that leave a function.
func (s *Summary) Exits() []*State { return s.exits }

// Entry is the entry state.
func (s *Summary) Entry() *State { return s.entry }

// Result is the result of an exit, or nil if it panics.
func (st *State) Result() Value { return st.result }

// Panic is the panic value of an exit.
func (st *State) Panic() Value { return st.panicking }

func (m *Machine) drive() {
	for len(m.work) > 0 && !m.stopped {
		st := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.run(st)
	}
	m.work = nil
}

func (m *Machine) push(st *State) { m.work = append(m.work, st) }

func (m *Machine) trouble(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	key := "undecided:" + msg
	if m.found[key] {
		return
	}
	m.found[key] = true
	if len(m.Trouble) < 50 {
		m.Trouble = append(m.Trouble, msg)
	}
	m.bad()
}

// parked ends the run of a state that waits for a call.
type parked struct{}

// attempt runs f on st; it says whether st can go on.
func (m *Machine) attempt(st *State, f func(st *State), snapshot *State) (ok bool) {
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
		case forkSignal:
			if snapshot == nil {
				panic("fork without snapshot at " + st.Where())
			}
			for i := r.n - 1; i >= 0; i-- {
				s := snapshot.clone()
				s.choices = append(append([]int(nil), r.prefix...), i)
				s.choiceIdx = 0
				m.push(s)
			}
			ok = false
		case infeasible, parked:
			ok = false
		case undecided:
			m.trouble("%s", r.msg)
			if m.Debug {
				fmt.Println("UNDECIDED", r.msg, "\n  path:", st.Path())
			}
			ok = false
		case raiseSignal:
			st.panicking = r.v
			st.unwinding = true
			st.choices, st.choiceIdx = nil, 0
			ok = true
		default:
			panic(r)
		}
	}()
	f(st)
	return true
}

func (m *Machine) run(st *State) {
	for {
		m.Steps++
		if m.Steps > m.Budget {
			if !m.cut {
				m.trouble("the analysis did not converge within %d steps", m.Budget)
			}
			m.stopped = true
			return
		}
		if st.unwinding {
			snap := st.clone()
			if !m.attempt(st, m.unwind, snap) {
				return
			}
			continue
		}
		in := st.Blk.Instrs[st.PC]
		var snap *State
		switch in := in.(type) {
		case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Extract, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.DebugRef, *ssa.Phi:
		case *ssa.Jump:
			if isMerge(in.Block().Succs[0]) {
				snap = st.clone()
			}
		default:
			snap = st.clone()
		}
		if !m.attempt(st, m.exec, snap) {
			return
		}
	}
}

// Raise starts a run-time panic.
func (st *State) Raise(msg string) {
	panic(raiseSignal{Iface{rtErrType, TupleV{[]Value{Tag{msg}}}}})
}

// RaiseValue starts a panic.
func (st *State) RaiseValue(v Value) { panic(raiseSignal{v}) }

var rtErrType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtime.Error", nil), types.NewStruct(nil, nil), nil)

// RuntimePanic says whether a panic value is a run-time error, and which.
func RuntimePanic(v Value) (string, bool) {
	if i, ok := v.(Iface); ok && i.T == types.Type(rtErrType) {
		return i.V.(TupleV).V[0].(Tag).S, true
	}
	return "", false
}

// unwind runs the next deferred call of a function that is leaving.
func (m *Machine) unwind(st *State) {
	if len(st.defers) == 0 {
		if st.panicking != nil {
			m.exit(st)
			panic(parked{})
		}
		st.unwinding = false
		st.choices, st.choiceIdx = nil, 0
		if st.recovered {
			st.recovered = false
			if st.Fn.Recover != nil {
				st.Blk, st.PC = st.Fn.Recover, 0
				return
			}
			var zero []Value
			res := st.Fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				zero = append(zero, m.Zero(st, res.At(i).Type()))
			}
			st.result = TupleV{zero}
			m.exit(st)
			panic(parked{})
		}
		st.PC++ // after RunDefers
		return
	}
	d := st.defers[len(st.defers)-1]
	pop := func(s *State) { s.defers = s.defers[:len(s.defers)-1] }
	defer func() {
		if r := recover(); r != nil {
			if _, raised := r.(raiseSignal); raised {
				pop(st) // It does not run again.
			}
			panic(r)
		}
	}()
	st.invoke(d.Fn, d.Args, d.Call, d.In, true, func(n *State, _ Value) {
		pop(n)
		n.choices, n.choiceIdx = nil, 0
	})
}

func (st *State) setReg(v ssa.Value, x Value) {
	st.regs[st.M.info(st.Fn).slot[v]] = x
}

// Get is the value of an operand.
func (st *State) Get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return st.M.constant(st, v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Global:
		return Ptr{Obj: st.global(v)}
	case *ssa.Builtin:
		return FuncV{Native: "builtin:" + v.Name()}
	}
	x := st.regs[st.M.info(st.Fn).slot[v]]
	if x == nil {
		panic(fmt.Sprintf("%s: %s has no value", st.Where(), v.Name()))
	}
	return st.Resolve(x)
}

func (st *State) global(g *ssa.Global) ObjID {
	if id := st.globals[g]; id != 0 {
		return id
	}
	id := st.NewObj(&Obj{Kind: Cell, T: g.Type().(*types.Pointer).Elem(), Label: "global " + g.Name()})
	st.globals[g] = id
	v := st.M.Client.Global(st, g)
	st.UpdateObj(id, func(o *Obj) { o.V = v })
	return id
}

// GlobalObj is the object of a package variable.
func (st *State) GlobalObj(g *ssa.Global) ObjID { return st.global(g) }

// summary finds or makes the summary of a function for arguments, and returns the maps from
// the pinned numbers of its entry to the numbers of st.
func (m *Machine) summary(st *State, fn *ssa.Function, args, free []Value, recoverable Value) (*Summary, []ObjID, []Sym) {
	c := newCollector(st)
	d := c.dst
	fi := m.info(fn)
	d.Fn = fn
	d.regs = make([]Value, fi.n)
	for i, p := range fn.Params {
		d.regs[fi.slot[p]] = c.val(args[i])
	}
	for i, f := range fn.FreeVars {
		d.regs[fi.slot[f]] = c.val(free[i])
	}
	d.recoverable = c.val(recoverable)
	if m.pure(fn) {
		d.Ghost, d.globals = map[string]Value{}, map[*ssa.Global]ObjID{}
	} else {
		c.environment()
	}
	c.drain()
	c.rels()
	if cl, ok := m.Client.(Clipper); ok {
		cl.Clip(d)
	}
	d.pinObjs, d.pinSyms = len(d.objs)-1, len(d.syms)-1
	om, sm := make([]ObjID, len(d.objs)), make([]Sym, len(d.syms))
	for from, to := range c.om {
		if to != 0 {
			om[to] = ObjID(from)
		}
	}
	for from, to := range c.sm {
		if to != 0 {
			sm[to] = Sym(from)
		}
	}
	key := digest(fn.String() + "\n" + d.key())
	if s := m.sums[key]; s != nil {
		return s, om, sm
	}
	s := &Summary{ID: len(m.Sums), Fn: fn, Key: key, entry: d, exitKey: map[string]bool{}, seen: map[string]int{}, visits: map[*ssa.BasicBlock]int{}}
	if st.Sum != nil {
		s.depth = st.Sum.depth + 1
	}
	if m.Depth > 0 && s.depth > m.Depth {
		st.Undecided("calls that nest more than %d deep: the recursion may not end; a call of %s", m.Depth, fn.Name())
	}
	m.sums[key] = s
	m.Sums = append(m.Sums, s)
	s.node = m.newNode(Node{Sum: s, What: "entry of " + fn.String()})
	d.Sum = s
	d.Blk = fn.Blocks[0]
	d.PC = 0
	d.node, d.prog = s.node, false
	start := d.clone()
	m.push(start)
	return s, om, sm
}

func (m *Machine) newNode(n Node) int {
	m.Nodes = append(m.Nodes, n)
	return len(m.Nodes) - 1
}

func (m *Machine) edge(e Edge) {
	if !m.edges[e] {
		m.edges[e] = true
		m.Edges = append(m.Edges, e)
	}
}

// Progress marks the step to the next node as making progress.
func (st *State) Progress() { st.prog = true }

// enter moves a state to a block.
// digest stands for the text of a state.
func digest(s string) string {
	h := sha256.Sum256([]byte(s))
	return string(h[:16])
}

func (st *State) enter(to *ssa.BasicBlock) {
	m := st.M
	from := st.Blk
	fi := m.info(st.Fn)
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		if fi.live[to][fi.slot[phi]] {
			vals = append(vals, st.Get(phi.Edges[pi]))
		} else {
			vals = append(vals, nil)
		}
	}
	for i, phi := range phis {
		st.regs[fi.slot[phi]] = vals[i]
	}
	st.Blk, st.PC = to, len(phis)
	if !isMerge(to) {
		st.choices, st.choiceIdx = nil, 0
		return
	}
	live := fi.live[to]
	if ad, ok := m.Client.(Advancer); ok && isBackEdge(from, to) {
		for i := range st.regs {
			if !live[i] {
				st.regs[i] = nil
			}
		}
		ad.Advance(st, nil)
	}
	if isBackEdge(from, to) {
		m.Client.LoopBack(st, to)
	}
	if isBackEdge(from, to) && !st.keepCounters(to) {
		st.widen(to)
	}
	for i := range st.regs {
		if !live[i] {
			st.regs[i] = nil
		}
	}
	if isBackEdge(from, to) {
		st.generalise(to, live)
	}
	st.choices, st.choiceIdx = nil, 0
	n := st.normalise(live)
	if c, ok := m.Client.(Compacter); ok && isBackEdge(from, to) {
		c.Compact(n, AtLoop, nil)
		n = n.normalise(live)
	}
	if cl, ok := m.Client.(Clipper); ok {
		cl.Clip(n)
	}
	full := n.key()
	key := digest(strconv.Itoa(to.Index) + "\n" + full)
	m.Merges++
	s := st.Sum
	node, seen := s.seen[key]
	if !seen {
		node = m.newNode(Node{Sum: s, What: m.Pos(to.Instrs[len(phis)])})
		s.seen[key] = node
		s.visits[to]++
		if s.visits[to] > m.Limit {
			m.trouble("%s: more than %d abstract states: the loop or function is too complex to decide", m.Pos(to.Instrs[len(phis)]), m.Limit)
			panic(infeasible{})
		}
		if m.Debug && s.visits[to] > m.Limit-3 {
			fmt.Println("STATE", m.Pos(to.Instrs[len(phis)]), full)
		}
	}
	m.edge(Edge{From: st.node, To: node, Prog: st.prog})
	if seen {
		panic(parked{})
	}
	*st = *n
	st.node, st.prog = node, false
}

// exit summarises a state that leaves its function.
func (m *Machine) exit(st *State) {
	m.Client.Exit(st)
	if m.Client.Forget(st.Fn) {
		st.forget()
	}
	for i := range st.regs {
		st.regs[i] = nil
	}
	if ad, ok := m.Client.(Advancer); ok && !m.pure(st.Fn) {
		var more []Value
		for _, v := range []Value{st.result, st.panicking} {
			if v != nil {
				more = append(more, v)
			}
		}
		ad.Advance(st, more)
	}
	n := st.normalise(nil)
	if c, ok := m.Client.(Compacter); ok && !m.pure(st.Fn) {
		var more []Value
		for _, v := range []Value{n.result, n.panicking} {
			if v != nil {
				more = append(more, v)
			}
		}
		c.Compact(n, AtExit, more)
		n = n.normalise(nil)
	}
	if cl, ok := m.Client.(Clipper); ok {
		cl.Clip(n)
	}
	n.defers = nil
	n.unwinding = false
	n.recoverable = nil
	s := st.Sum
	full := n.key()
	key := digest("exit\n" + full)
	node, ok := s.seen[key]
	if !ok {
		node = m.newNode(Node{Sum: s, What: "exit of " + st.Fn.String(), Exit: true})
		s.seen[key] = node
	}
	m.edge(Edge{From: st.node, To: node, Prog: st.prog})
	if ok {
		return
	}
	n.node = node
	s.exits = append(s.exits, n)
	if m.Debug && len(s.exits) > m.Limit-3 {
		fmt.Println("EXIT", s.Fn, full)
	}
	if len(s.exits) > m.Limit {
		m.trouble("%s: more than %d abstract results", s.Fn, m.Limit)
		m.stopped = true
		return
	}
	for _, w := range s.waiters {
		m.apply(s, len(s.exits)-1, w)
	}
}

// forget drops what the function learnt about its input.
func (st *State) forget() {
	e := st.Sum.entry
	for i := 1; i <= st.pinSyms; i++ {
		st.syms[i] = e.syms[i]
	}
	for i := 1; i <= st.pinObjs; i++ {
		if st.objs[i].Input && e.objs[i].Input {
			st.objs[i] = e.objs[i]
		}
	}
	var rels []Rel
	for _, r := range st.rels {
		if int(r.A) <= st.pinSyms && int(r.B) <= st.pinSyms {
			continue
		}
		rels = append(rels, r)
	}
	st.rels = append(rels, e.rels...)
	// Facts that are stated by terms.
	for s := st.pinSyms + 1; s < len(st.syms); s++ {
		if si := st.syms[s]; si != nil && si.Def != nil && weakOps[si.Def.Op] {
			n := si.clone()
			n.Set, n.Nil = nil, Unknown
			st.syms[s] = n
		}
	}
}

// await parks a state until a function returns.
func (st *State) await(fn *ssa.Function, args, free []Value, recoverable Value, cont func(n *State, result Value)) {
	m := st.M
	work, known := m.work, len(m.Sums)
	m.work = nil
	s, om, sm := m.summary(st, fn, args, free, recoverable)
	if len(m.Sums) > known && m.pure(fn) {
		for len(m.work) > 0 && !m.stopped {
			w := m.work[len(m.work)-1]
			m.work = m.work[:len(m.work)-1]
			m.run(w)
		}
		s.join()
	}
	m.work = append(work, m.work...)
	ce := Edge{From: st.node, To: s.node, Prog: st.prog}
	if !m.edges[ce] {
		m.edges[ce] = true
		m.calls = append(m.calls, ce)
	}
	w := &waiter{st: st.clone(), om: om, sm: sm, cont: cont}
	s.waiters = append(s.waiters, w)
	for i := range s.exits {
		m.apply(s, i, w)
	}
	panic(parked{})
}

// apply continues a waiting state with an exit of the function that it called.
func (m *Machine) apply(s *Summary, exit int, w *waiter) {
	x := s.exits[exit]
	n := w.st.clone()
	om, sm := make([]ObjID, len(x.objs)), make([]Sym, len(x.syms))
	for i := 1; i < len(x.objs); i++ {
		if i <= x.pinObjs {
			om[i] = w.om[i]
		} else {
			om[i] = n.NewObj(nil)
		}
	}
	for i := 1; i < len(x.syms); i++ {
		if i <= x.pinSyms {
			sm[i] = w.sm[i]
		} else {
			n.syms = append(n.syms, nil)
			sm[i] = Sym(len(n.syms) - 1)
		}
	}
	// A collector with complete maps only renumbers.
	c := &collector{src: x, dst: n, om: om, sm: sm}
	if m.Unify {
		m.unify(c, len(w.st.syms))
	}
	for i := 1; i < len(x.objs); i++ {
		n.objs[om[i]] = c.object(x.objs[i])
		n.objs[om[i]].Ext = 0
		if e := x.objs[i].Ext; e != 0 {
			n.objs[om[i]].Ext = om[e]
		}
	}
	for i := 1; i < len(x.syms); i++ {
		info := c.info(x.syms[i])
		if old := n.syms[sm[i]]; i > x.pinSyms && old != nil && info != nil {
			// A term that is known already.
			if info = old.meet(info); info == nil {
				return
			}
		}
		n.syms[sm[i]] = info
	}
	for _, r := range x.rels {
		n.addRel(sm[r.A], sm[r.B], r.C)
	}
	for k := range n.Ghost {
		if m.pure(s.Fn) {
			break
		}
		if _, ok := x.Ghost[k]; !ok {
			delete(n.Ghost, k)
		}
	}
	for k, v := range x.Ghost {
		n.Ghost[k] = c.val(v)
	}
	for g, id := range x.globals {
		n.globals[g] = om[id]
	}
	n.trace = w.st.trace
	n.Note("%s -> %s", m.short(s.Fn), describeExit(x))
	node := m.newNode(Node{Sum: n.Sum, What: "return from " + s.Fn.String()})
	e := Edge{From: w.st.node, To: node, Prog: w.st.prog, Via: s, ViaExit: x.node}
	m.edge(e)
	n.node, n.prog = node, false
	if !n.consistent() {
		return
	}
	ok := m.attempt(n, func(n *State) {
		n.choices, n.choiceIdx = nil, 0
		if x.panicking != nil {
			v := c.val(x.panicking)
			if n.unwinding {
				n.defers = n.defers[:len(n.defers)-1]
			}
			n.RaiseValue(v)
		}
		if n.unwinding && x.recovered {
			n.panicking = nil
			n.recovered = true
		}
		w.cont(n, c.val(x.result))
	}, nil)
	if ok {
		m.push(n)
	}
}

// unify finds the terms of a called function that the caller knows, too. The symbols up to known
// are those of the caller.
func (m *Machine) unify(c *collector, known int) {
	index := map[string]Sym{}
	for i := 1; i < known; i++ {
		if si := c.dst.syms[i]; si != nil && si.Def != nil {
			index[defKey(c.dst, si.Def.Op, si.Def.Args)] = Sym(i)
		}
	}
	if len(index) == 0 {
		return
	}
	for again := true; again; {
		again = false
		for i := c.src.pinSyms + 1; i < len(c.src.syms); i++ {
			si := c.src.syms[i]
			if si == nil || si.Def == nil || int(c.sm[i]) < known {
				continue
			}
			args := make([]Value, len(si.Def.Args))
			for j, a := range si.Def.Args {
				args[j] = c.val(a)
			}
			if s, ok := index[defKey(c.dst, si.Def.Op, args)]; ok {
				c.sm[i] = s
				again = true
			}
		}
	}
}

// defKey is a text for a term. The symbols in it need not have their meaning yet.
func defKey(st *State, op string, args []Value) string {
	var b strings.Builder
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(' ')
		writeRaw(&b, a)
	}
	return b.String()
}

// meet is what is known about a symbol that is known in two ways, or nil if it cannot be.
func (i *SymInfo) meet(j *SymInfo) *SymInfo {
	c := *i
	if j.Set != nil {
		c.Set = i.IntSetOf().Intersect(j.Set)
		if c.Set.Empty() {
			return nil
		}
	}
	if j.Nil != Unknown {
		if i.Nil != Unknown && i.Nil != j.Nil {
			return nil
		}
		c.Nil = j.Nil
	}
	if j.Eq != nil {
		if i.Eq != nil && *i.Eq != *j.Eq {
			return nil
		}
		c.Eq = j.Eq
	}
	if c.Eq == nil {
		for _, n := range j.Ne {
			c.Ne = addString(c.Ne, n)
		}
		for _, n := range j.NotPre {
			c.NotPre = addString(c.NotPre, n)
		}
		if len(j.Pre) > len(i.Pre) {
			c.Pre = j.Pre
		}
	}
	if j.Dyn != nil && i.Dyn == nil {
		c.Dyn, c.Inner, c.NotDyn = j.Dyn, j.Inner, nil
	}
	if j.Obj != 0 && i.Obj == 0 {
		c.Obj = j.Obj
	}
	c.Flags |= j.Flags
	return &c
}

func addString(ss []string, s string) []string {
	for _, x := range ss {
		if x == s {
			return ss
		}
	}
	out := append(append([]string(nil), ss...), s)
	sort.Strings(out)
	return out
}

func describeExit(x *State) string {
	if x.panicking != nil {
		if s, ok := RuntimePanic(x.panicking); ok {
			return "panic: " + s
		}
		return "panic"
	}
	return "ok"
}

func (m *Machine) short(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.RelString(fn.Pkg.Pkg)
	}
	return fn.Name()
}

// consistent says whether the facts about symbols can hold.
func (st *State) consistent() bool {
	for _, si := range st.syms {
		if si != nil && si.Set != nil && si.Set.Empty() {
			return false
		}
	}
	// No symbol is less than itself.
	idx := map[Sym]int{}
	at := func(s Sym) int {
		i, ok := idx[s]
		if !ok {
			i = len(idx)
			idx[s] = i
		}
		return i
	}
	for _, r := range st.rels {
		at(r.A)
		at(r.B)
	}
	const far = int64(1) << 40
	n := len(idx)
	d := make([]int64, n*n)
	for i := range d {
		d[i] = far
	}
	for _, r := range st.rels {
		if k := at(r.A)*n + at(r.B); r.C < d[k] && r.C > -far {
			d[k] = r.C
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if d[i*n+k] == far {
				continue
			}
			for j := 0; j < n; j++ {
				if x := d[i*n+k] + d[k*n+j]; d[k*n+j] != far && x < d[i*n+j] {
					d[i*n+j] = x
				}
			}
		}
		if d[k*n+k] < 0 {
			return false
		}
	}
	return true
}

// SortedTypes sorts types by name.
func SortedTypes(ts []types.Type) []types.Type {
	sort.Slice(ts, func(i, j int) bool { return TypeKey(ts[i]) < TypeKey(ts[j]) })
	return ts
}
