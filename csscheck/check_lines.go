package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C30: the table of the starts of lines.

func init() { register("C30", checkLines) }

type lineClient struct {
	astClient
	win              *lexWindow
	srcT, lexT       *types.Named
	cont, lines, pos int
	root, newLexer   *ssa.Function
	lookup           *ssa.Function
	mode             string // "new", "empty", "fresh", "again" or "lookup"
	starts           map[bool]int
	exits, appends   int
	searches         int
}

func (c *lineClient) fail(st *ai.State, key, format string, args ...interface{}) {
	st.M.Report(key, "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
	st.Infeasible()
}

func (c *lineClient) SliceHook(st *ai.State, s ai.Str, lo ai.Int, hi *ai.Int) (ai.Value, bool) {
	return nil, false
}

func (c *lineClient) isLines(st *ai.State, p ai.Ptr) bool {
	o := st.Object(p.Obj)
	return o != nil && o.Kind == ai.Cell && o.T == types.Type(c.srcT) && len(p.Path) == 1 && p.Path[0].Field == c.lines
}

// table is the current table.
func (c *lineClient) table(st *ai.State) ai.Value {
	if st.Ghost["=empty"] != nil {
		return ai.Nil{}
	}
	if t, ok := st.Ghost["table"].(ai.SliceV); ok {
		return t
	}
	n := st.NewInt("len", ai.Range(1, 1<<30))
	id := st.NewObj(&ai.Obj{Kind: ai.List, T: types.Typ[types.Int], Input: true, Len: n, Label: "lines"})
	t := ai.SliceV{Obj: id, Len: n}
	st.Ghost["table"] = t
	return t
}

// unit is what the lexer steps over: its end, and whether it is a newline.
func (c *lineClient) unit(st *ai.State) (end ai.Int, newline bool) {
	p := st.Ghost["p"].(ai.Int)
	c.win.decode(st, p)
	at := func(pos ai.Int) (lexCell, bool) {
		cells := c.win.cells(st)
		i, ok := c.win.index(st, cells, pos)
		if !ok {
			return lexCell{}, false
		}
		return cells[i], true
	}
	cell, ok := at(p)
	if !ok {
		st.Undecided("place of the lexer")
	}
	if cell.eof {
		return p, false
	}
	if !st.DecideIn(cell.cp, setNL) {
		return cell.next, false
	}
	if st.DecideIn(cell.cp, setCR) {
		c.win.decode(st, cell.next)
		if next, ok := at(cell.next); ok && !next.eof && st.DecideIn(next.cp, setLF) {
			return next.next, true
		}
	}
	return cell.next, true
}

func (c *lineClient) Load(st *ai.State, p ai.Ptr, t types.Type) (ai.Value, bool) {
	if c.isLines(st, p) {
		if c.mode == "again" {
			if end, nl := c.unit(st); nl {
				if !st.AssumeLess(end, st.Ghost["last"].(ai.Int), true) {
					st.Infeasible()
				}
			}
		}
		return c.table(st), true
	}
	o := st.Object(p.Obj)
	if o == nil || o.Kind != ai.List || o.Label != "lines" || len(p.Path) != 1 {
		return nil, false
	}
	i := st.ResInt(p.Path[0].Idx)
	if c.mode == "lookup" {
		line, off := st.Ghost["line"].(ai.Int), st.Ghost["off"].(ai.Int)
		if !st.DecideLess(i, line, false) {
			v := st.NewInt("start", ai.Range(0, 1<<40))
			if !st.AssumeLess(off, v, false) {
				st.Infeasible()
			}
			return v, true
		}
		start := st.Ghost["start"].(ai.Int)
		if st.DecideEqual(i, line.Add(-1)) {
			return start, true
		}
		v := st.NewInt("start", ai.Range(0, 1<<40))
		if !st.AssumeLess(v, start, false) {
			st.Infeasible()
		}
		return v, true
	}
	last := st.Ghost["last"].(ai.Int)
	if st.DecideEqual(i, o.Len.Add(-1)) {
		return last, true
	}
	v := st.NewInt("start", ai.Range(0, math.MaxInt64))
	if !st.AssumeLess(v, last, false) {
		st.Infeasible()
	}
	return v, true
}

func (c *lineClient) StoreValue(st *ai.State, p ai.Ptr, v ai.Value) ai.Value {
	o := st.Object(p.Obj)
	if o != nil && o.Kind == ai.List && o.Label == "lines" {
		c.fail(st, "overwritten", "an entry of the table of lines is overwritten")
	}
	if !c.isLines(st, p) {
		return v
	}
	if c.mode == "lookup" {
		c.fail(st, "changed", "the table of lines is changed while a place is looked up")
	}
	old := c.table(st)
	if st.SameValue(old, v) {
		return v
	}
	segs, ok := st.SegsOf(v)
	if !ok {
		st.Undecided("table of lines")
	}
	if s, ok := old.(ai.SliceV); ok {
		if len(segs) == 0 || segs[0].IsElem() || segs[0].Of != s.Obj || st.ResInt(segs[0].Lo) != (ai.Int{}) || st.Equal(segs[0].Hi, s.Len) != ai.Yes {
			c.fail(st, "replaced", "the table of lines is replaced by another one")
		}
		segs = segs[1:]
	}
	for _, s := range segs {
		x, isInt := st.Resolve(s.Elem).(ai.Int)
		if !s.IsElem() || !isInt {
			st.Undecided("table of lines")
		}
		c.appends++
		if st.Ghost["=empty"] != nil {
			if st.Equal(x, ai.K(0)) != ai.Yes {
				c.fail(st, "first", "the first line does not start at 0, but at %s", st.Describe(x))
			}
			delete(st.Ghost, "=empty")
			st.Ghost["last"] = x
			continue
		}
		if c.mode == "new" {
			c.fail(st, "second", "a line is recorded before there is one")
		}
		end, nl := c.unit(st)
		switch {
		case !nl:
			c.fail(st, "no newline", "a line is recorded where there is no newline")
		case c.mode == "again":
			c.fail(st, "twice", "a line is recorded again when the lexer comes past its start for the second time")
		case st.Ghost["=added"] != nil:
			c.fail(st, "twice", "a line is recorded twice")
		case st.Equal(x, end) != ai.Yes:
			c.fail(st, "where", "a line is recorded at %s, but it starts at %s", st.Describe(x), st.Describe(end))
		}
		st.Ghost["=added"] = ai.K(1)
		st.Ghost["last"] = x
	}
	delete(st.Ghost, "table")
	return ai.Nil{}
}

func (c *lineClient) place(st *ai.State, lexer ai.Value) ai.Int {
	lx, ok := st.LoadPtr(st.Deref(lexer, nil), c.lexT).(ai.StructV)
	if !ok {
		st.Undecided("state of the lexer")
	}
	i, ok := lx.F[c.pos].(ai.Int)
	if !ok {
		st.Undecided("place of the lexer")
	}
	return st.ResInt(i)
}

func (c *lineClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if c.mode == "new" && call.Fn == c.root {
		if p := c.place(st, call.Args[0]); p != ai.K(0) {
			c.fail(st, "begin", "the lexer does not begin at the start of the text")
		}
		c.starts[st.Ghost["=empty"] == nil]++
		st.Infeasible() // The rest is in the other modes.
	}
	switch call.Name {
	case "unicode/utf8.DecodeRuneInString":
		pos, ok := c.win.position(st, call.Args[0])
		if !ok {
			return ai.TupleV{V: []ai.Value{st.NewInt("rune", ai.Range(0, maxRune)), st.NewInt("size", ai.Range(0, 4))}}, true
		}
		return c.win.decode(st, pos), true
	case "sort.Search":
		if c.mode == "lookup" {
			return c.search(st, call), true
		}
	case "sort.SearchInts":
		if t, ok := call.Args[0].(ai.SliceV); ok && c.mode == "lookup" && st.Object(t.Obj).Label == "lines" && st.Equal(t.Len, st.ListLen(t.Obj)) == ai.Yes {
			// The first that is not less.
			x := call.Args[1].(ai.Int)
			line, off, start := st.Ghost["line"].(ai.Int), st.Ghost["off"].(ai.Int), st.Ghost["start"].(ai.Int)
			if st.Equal(x, off.Add(1)) == ai.Yes {
				return line, true
			}
			if st.Equal(x, off) == ai.Yes {
				if st.DecideEqual(off, start) {
					return line.Add(-1), true
				}
				return line, true
			}
		}
	}
	return c.astClient.Call(st, call)
}

// search is sort.Search over the lines.
func (c *lineClient) search(st *ai.State, call *ai.Call) ai.Value {
	n, ok := call.Args[0].(ai.Int)
	f, isFunc := st.Resolve(call.Args[1]).(ai.FuncV)
	if !ok || !isFunc || f.Fn == nil {
		st.Undecided("search")
	}
	c.searches++
	line := st.Ghost["line"].(ai.Int)
	// The answer for any index.
	m := ai.NewMachine(st.M.Prog, c)
	m.InRepo, m.PosOf, m.Limit = st.M.InRepo, st.M.PosOf, 500
	s := st.Copy()
	k := s.NewInt("index", ai.Range(0, 1<<30))
	if !s.AssumeLess(k, n, false) {
		st.Undecided("search")
	}
	s.Ghost["k"] = k
	sum := m.Start(f.Fn, s, []ai.Value{k}, f.B)
	if len(m.Trouble) > 0 {
		st.Undecided("search: %s", m.Trouble[0])
	}
	// It must be true from some line on.
	from := map[int64]bool{0: true, -1: true, 1: true}
	for _, x := range sum.Exits() {
		if x.Panic() != nil {
			c.fail(st, "panic", "looking up a line may panic")
		}
		k, line := x.Ghost["k"].(ai.Int), x.Ghost["line"].(ai.Int)
		yes, ok := x.Result().(ai.Int)
		if !ok || !x.ResInt(yes).IsConst() {
			st.Undecided("search")
		}
		for d := range from {
			after := x.Less(line.Add(d), k, true)
			if after == ai.Unknown || (after == ai.Yes) != (x.ResInt(yes).Off != 0) {
				delete(from, d)
			}
		}
	}
	if len(from) != 1 {
		st.Undecided("search")
	}
	for d := range from {
		res := line.Add(d)
		if st.DecideLess(n, res, false) {
			return n
		}
		return res
	}
	return nil
}

func (c *lineClient) Exit(st *ai.State) {
	switch {
	case c.mode == "new" && st.Fn == c.newLexer && st.Panic() == nil:
		c.starts[st.Ghost["=empty"] == nil]++
		return
	case c.mode == "lookup" && st.Fn == c.lookup:
		c.lookedUp(st)
		return
	case st.Fn != c.root || c.mode == "new":
		return
	}
	c.exits++
	if st.Panic() != nil {
		msg, ok := ai.RuntimePanic(st.Panic())
		if !ok {
			return // an error of the lexer
		}
		c.fail(st, "panic", "reading a code point may panic: %s", msg)
	}
	if st.Ghost["=empty"] != nil {
		c.fail(st, "none", "the first line is not recorded")
	}
	end, nl := c.unit(st)
	if nl && c.mode != "again" && st.Ghost["=added"] == nil {
		c.fail(st, "missing", "the lexer goes past a newline without recording the line after it")
	}
	if p := c.place(st, st.Ghost["lexer"]); st.Equal(p, end) != ai.Yes {
		c.fail(st, "place", "the lexer is at %s after a code point that ends at %s: a newline may be counted twice or not at all", st.Describe(p), st.Describe(end))
	}
}

// LoopBack keeps of counters how they are to the line that is looked up.
func (c *lineClient) LoopBack(st *ai.State, head *ssa.BasicBlock) {
	if c.mode != "lookup" {
		return
	}
	line := st.Ghost["line"].(ai.Int)
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := st.Reg(phi).(ai.Int)
		if !ok {
			continue
		}
		lo := int64(math.MinInt64)
		for _, k := range []int64{0, -1} {
			if st.Less(ai.K(k), v, true) == ai.Yes {
				lo = k
				break
			}
		}
		n := st.NewInt("count", ai.Range(lo, 1<<30))
		for d := int64(-1); d <= 1; d++ {
			if st.Less(v, line.Add(d), true) == ai.Yes {
				st.AssumeLess(n, line.Add(d), true)
				break
			}
		}
		st.SetReg(phi, n)
	}
}

func (c *lineClient) lookedUp(st *ai.State) {
	c.exits++
	if st.Panic() != nil {
		msg, _ := ai.RuntimePanic(st.Panic())
		c.fail(st, "lookup panic", "looking up a line may panic: %s", msg)
	}
	res, ok := st.Result().(ai.TupleV)
	if !ok || len(res.V) != 2 {
		st.Undecided("result")
	}
	line, ok1 := st.Resolve(res.V[0]).(ai.Int)
	col, ok2 := st.Resolve(res.V[1]).(ai.Int)
	if !ok1 || !ok2 {
		st.Undecided("result")
	}
	if st.Equal(line, st.Ghost["line"].(ai.Int)) != ai.Yes {
		c.fail(st, "line", "the line of a place is not the number of line starts up to it")
	}
	sum := map[ai.Sym]int64{}
	linear(st, col, 1, sum)
	linear(st, st.Ghost["off"].(ai.Int), -1, sum)
	linear(st, st.Ghost["start"].(ai.Int), 1, sum)
	sum[0]--
	for _, n := range sum {
		if n != 0 {
			c.fail(st, "column", "the column of a place is not its distance from the start of its line, counted from 1, but %s", st.Describe(col))
		}
	}
}

// AddHook knows what sizes add up to.
func (c *lineClient) AddHook(st *ai.State, a, b ai.Int) (ai.Int, bool) { return c.win.sum(st, a, b) }

// linear adds the coefficients of a sum to m, the constant at 0.
func linear(st *ai.State, i ai.Int, factor int64, m map[ai.Sym]int64) {
	i = st.ResInt(i)
	m[0] += factor * i.Off
	if i.Base == 0 {
		return
	}
	if d := st.Info(i.Base).Def; d != nil && (d.Op == "+" || d.Op == "-" || d.Op == "neg") {
		sign := factor
		ok := true
		for _, a := range d.Args {
			_, isInt := a.(ai.Int)
			ok = ok && isInt
		}
		if ok {
			for k, a := range d.Args {
				if d.Op == "neg" || d.Op == "-" && k == 1 {
					sign = -factor
				}
				linear(st, a.(ai.Int), sign, m)
			}
			return
		}
	}
	m[i.Base] += factor
}

func checkLines(p *Program, r *Report) {
	r.Rule = "a step of the lexer over a newline that is not in the table yet appends the place after it, no other step changes the table, the first step puts the first line in; only steps move the lexer forward; LineAndCol gives the number of starts up to a place, and its distance from the last of them"
	r.Explanation = "The function that decodes a code point, moves the lexer and records lines is found by what it does, and interpreted abstractly, in SSA form, over symbolic text at a symbolic place: with an empty table, with a table that is complete up to the place (the last start is not after the place), and with one that is complete up to a later place (the lexer was taken back). That these are all the tables there are follows by induction. All other writes to the place and to the table are found by their fields. LineAndCol is interpreted over a symbolic table and place."
	r.Assumptions = []string{"utf8.DecodeRuneInString and sort.Search do what their documentation says", "a lexer is only ever taken back to a state that it was in before (by a copy of the whole state)", "texts have less than 2^30 lines, lines less than 2^30 bytes"}
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return
	}
	c := &lineClient{astClient: astClient{m}, win: &lexWindow{newlines: true}, srcT: p.Named("internal/sources", "Source"), lexT: p.Named("internal/lexer", "Lexer"),
		cont: -1, lines: -1, pos: -1, newLexer: p.Func("internal/lexer", "NewLexer"), starts: map[bool]int{}}
	c.win.known = func(st *ai.State, more []ai.Value) int { return len(c.win.cells(st)) - 1 }
	if c.srcT == nil || c.lexT == nil || c.newLexer == nil {
		r.Violation("anchor", "sources.Source, lexer.Lexer or lexer.NewLexer is gone")
		return
	}
	src := -1
	for i, f := range structFields(c.srcT) {
		switch f.Name() {
		case "Content":
			c.cont = i
		case "Lines":
			c.lines = i
		}
	}
	for i, f := range structFields(c.lexT) {
		if types.Identical(f.Type(), types.NewPointer(c.srcT)) {
			src = i
		}
	}
	c.lookup = p.Prog.LookupMethod(types.NewPointer(c.srcT), c.srcT.Obj().Pkg(), "LineAndCol")
	if c.cont < 0 || c.lines < 0 || src < 0 || c.lookup == nil {
		r.Violation("anchor", "Source.Content, Source.Lines, Source.LineAndCol or the lexer's source is gone")
		return
	}
	if !c.find(p, r) {
		return
	}
	run := func(mode string, start func(m *ai.Machine, st *ai.State)) {
		c.mode = mode
		mach := ai.NewMachine(p.Prog, c)
		mach.InRepo, mach.PosOf, mach.Limit, mach.Enough = inRepo, p.Pos, 2000, 5000
		st := mach.NewState()
		start(mach, st)
		for _, f := range mach.Findings {
			r.Violation(f.Key, "%s", f.Msg)
		}
		for _, t := range mach.Trouble {
			r.Violation("undecided:"+t, "%s", t)
		}
		r.Counts["steps"] += mach.Steps
	}
	source := func(st *ai.State) ai.Ptr {
		content := c.win.start(st)
		v := ai.StructV{}
		for i, f := range structFields(c.srcT) {
			switch i {
			case c.cont:
				v.F = append(v.F, content)
			case c.lines:
				v.F = append(v.F, ai.Nil{})
			default:
				v.F = append(v.F, st.Unknown(f.Type(), f.Name()))
			}
		}
		return ai.Ptr{Obj: st.NewObj(&ai.Obj{Kind: ai.Cell, T: c.srcT, V: v})}
	}
	run("new", func(m *ai.Machine, st *ai.State) {
		s := source(st)
		st.Ghost["=empty"], st.Ghost["last"], st.Ghost["p"] = ai.K(1), ai.K(0), ai.K(0)
		m.Start(c.newLexer, st, []ai.Value{s}, nil)
	})
	step := func(empty bool, again bool) func(m *ai.Machine, st *ai.State) {
		return func(m *ai.Machine, st *ai.State) {
			s := source(st)
			pos := ai.K(0)
			if !empty {
				pos = st.NewInt(posLabel, ai.Range(0, math.MaxInt64))
				last := st.NewInt(posLabel, ai.Range(0, math.MaxInt64))
				st.AssumeLess(pos, c.win.contentLen(st), true)
				st.AssumeLess(last, c.win.contentLen(st), true)
				if !again {
					st.AssumeLess(last, pos, true)
				}
				st.Ghost["last"] = last
			} else {
				st.Ghost["=empty"], st.Ghost["last"] = ai.K(1), ai.K(0)
			}
			st.Ghost["front"], st.Ghost["p"] = pos, pos
			v := ai.StructV{}
			for i, f := range structFields(c.lexT) {
				switch i {
				case c.pos:
					v.F = append(v.F, pos)
				case src:
					v.F = append(v.F, s)
				default:
					v.F = append(v.F, st.Unknown(f.Type(), f.Name()))
				}
			}
			l := ai.Ptr{Obj: st.NewObj(&ai.Obj{Kind: ai.Cell, T: c.lexT, V: v})}
			st.Ghost["lexer"] = l
			args := []ai.Value{}
			for i, prm := range c.root.Params {
				if i == 0 {
					args = append(args, l)
				} else {
					args = append(args, st.Unknown(prm.Type(), prm.Name()))
				}
			}
			m.Start(c.root, st, args, nil)
		}
	}
	if c.starts[false] > 0 {
		run("empty", step(true, false))
	}
	run("fresh", step(false, false))
	run("again", step(false, true))
	r.Require("ways to the first step", c.starts[false]+c.starts[true], 1)
	r.Require("ends of steps", c.exits, 6)
	r.Require("recorded lines", c.appends, 3)
	run("lookup", func(m *ai.Machine, st *ai.State) {
		s := source(st)
		line := st.NewInt("line", ai.Range(1, 1<<30))
		start := st.NewInt("line start", ai.Range(0, 1<<29))
		off := st.NewInt("place", ai.Range(0, 1<<30))
		st.AssumeLess(start, off, true)
		st.Ghost["line"], st.Ghost["start"], st.Ghost["off"] = line, start, off
		t := c.table(st).(ai.SliceV)
		st.AssumeLess(line, t.Len, true)
		args := []ai.Value{s}
		for _, prm := range c.lookup.Params[1:] {
			v := st.Unknown(prm.Type(), prm.Name())
			if sv, ok := v.(ai.StructV); ok && typeName(prm.Type()) == "Span" {
				sv = ai.StructV{F: append([]ai.Value(nil), sv.F...)}
				sv.F[0] = off
				v = sv
			}
			args = append(args, v)
		}
		m.Start(c.lookup, st, args, nil)
	})
}

// find finds the function that steps, and what else moves the lexer or changes the table.
func (c *lineClient) find(p *Program, r *Report) bool {
	lexPkg := c.lexT.Obj().Pkg()
	callees := map[*ssa.Function][]*ssa.Function{}
	callers := map[*ssa.Function][]*ssa.Function{}
	decodes, records := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	moves := map[*ssa.Function]map[int]bool{}
	votes := map[int]int{}
	field := func(v ssa.Value, t *types.Named) (int, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || !types.Identical(fa.X.Type(), types.NewPointer(t)) {
			return 0, false
		}
		return fa.Field, true
	}
	type write struct {
		fn *ssa.Function
		at ssa.Instruction
	}
	var lineWrites []write
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if f, ok := field(x.Addr, c.srcT); ok && f == c.lines {
						records[fn] = true
						lineWrites = append(lineWrites, write{fn, in})
					}
					if f, ok := field(x.Addr, c.lexT); ok {
						if moves[fn] == nil {
							moves[fn] = map[int]bool{}
						}
						moves[fn][f] = true
					}
				case *ssa.Slice:
					if fnPackage(fn) != lexPkg || x.Low == nil || x.High != nil {
						continue
					}
					var look func(v ssa.Value, depth int)
					look = func(v ssa.Value, depth int) {
						switch v := v.(type) {
						case *ssa.UnOp:
							if f, ok := field(v.X, c.lexT); ok {
								votes[f]++
							}
						case *ssa.BinOp:
							if depth < 4 {
								look(v.X, depth+1)
								look(v.Y, depth+1)
							}
						}
					}
					look(x.Low, 0)
				}
				var call *ssa.CallCommon
				if ci, ok := in.(ssa.CallInstruction); ok {
					call = ci.Common()
				}
				if call == nil {
					continue
				}
				if callee := call.StaticCallee(); callee != nil {
					callees[fn] = append(callees[fn], callee)
					callers[callee] = append(callers[callee], fn)
					if strings.HasPrefix(callee.String(), "unicode/utf8.DecodeRune") {
						decodes[fn] = true
					}
				}
			}
		}
	}
	best := 0
	for f, n := range votes {
		if n > best || n == best && f < c.pos {
			best, c.pos = n, f
		}
	}
	if c.pos < 0 {
		r.Violation("anchor", "the place of the lexer is not found")
		return false
	}
	reach := func(fn *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			for _, g := range callees[f] {
				walk(g)
			}
		}
		walk(fn)
		return seen
	}
	does := map[*ssa.Function]bool{}
	for _, fn := range p.All {
		if fnPackage(fn) != lexPkg {
			continue
		}
		d, m, l := false, false, false
		for f := range reach(fn) {
			d, m, l = d || decodes[f], m || moves[f][c.pos], l || records[f]
		}
		does[fn] = d && m && l
	}
	var roots []*ssa.Function
	for fn := range does {
		if !does[fn] || fn == c.newLexer {
			continue
		}
		least := true
		for f := range reach(fn) {
			least = least && (f == fn || !does[f])
		}
		if least && len(fn.Params) > 0 && types.Identical(fn.Params[0].Type(), types.NewPointer(c.lexT)) {
			roots = append(roots, fn)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	if len(roots) != 1 {
		r.Violation("anchor", "there is not one function of the lexer that decodes a code point, moves on and records lines, but %d", len(roots))
		return false
	}
	c.root = roots[0]
	within := reach(c.root)
	for fn := range within {
		if fn == c.root || !moves[fn][c.pos] && !records[fn] {
			continue
		}
		for _, caller := range callers[fn] {
			if !within[caller] && caller != c.newLexer {
				r.Violation("caller:"+caller.String(), "%s calls %s, which moves the lexer or records lines, but is not a step of its own", caller, fn)
			}
		}
	}
	starts := reach(c.newLexer)
	for _, fn := range p.All {
		if moves[fn][c.pos] && !within[fn] && fn != c.newLexer {
			r.Violation("moves:"+fn.String(), "%s: %s moves the lexer without recording lines", p.Pos(fn.Pos()), fn)
		}
	}
	for _, w := range lineWrites {
		if !within[w.fn] && (fnPackage(w.fn) != lexPkg || !starts[w.fn]) {
			r.Violation("writes:"+w.fn.String(), "%s: %s changes the table of lines", p.Pos(w.at.Pos()), w.fn)
		}
	}
	r.Counts["writes to the table of lines"] = len(lineWrites)
	r.Counts["functions of a step"] = len(within)
	r.Require("writes to the table of lines", len(lineWrites), 1)
	return true
}
