package main

import (
	"encoding/base64"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C24: the digit tables of the source-map encoder and decoder. The values of the tables are
// computed by propagating constants through the package initialiser.

func init() { register("C24", checkVLQ) }

type initClient struct {
	astClient
	exits []*ai.State
}

func (c *initClient) Global(st *ai.State, g *ssa.Global) ai.Value {
	return st.M.Zero(st, g.Type().(*types.Pointer).Elem())
}

func (c *initClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if call.Fn == nil || inRepo(call.Fn) && !(call.Fn.Synthetic == "package initializer" && fnPackage(call.Fn) != st.Fn.Pkg.Pkg) {
		return nil, false
	}
	res := call.Common.Signature().Results()
	switch res.Len() {
	case 0:
		return nil, true
	case 1:
		return ai.Top{}, true
	}
	t := ai.TupleV{}
	for i := 0; i < res.Len(); i++ {
		t.V = append(t.V, ai.Top{})
	}
	return t, true
}

func (c *initClient) KeepCounters(st *ai.State, head *ssa.BasicBlock) bool { return true }

func (c *initClient) Exit(st *ai.State) {
	if st.Sum == st.M.Top {
		c.exits = append(c.exits, st.Copy())
	}
}

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func checkVLQ(p *Program, r *Report) {
	r.Rule = "the table that VLQEncode indexes holds the 64 digits of base64 in order, and the table that VLQDecode indexes holds the index of each digit at that digit, and nothing that looks like a digit elsewhere"
	r.Explanation = "Constant propagation through the package initialiser of internal/printer, in SSA form, gives the values of the package variables; the tables are those that VLQEncode and VLQDecode, with the functions they call, index."
	r.Assumptions = []string{"tables are package variables (or constant strings) and are not changed after initialisation, which C28 checks"}
	enc, dec := p.Func("internal/printer", "VLQEncode"), p.Func("internal/printer", "VLQDecode")
	if enc == nil || dec == nil {
		r.Violation("anchor", "VLQEncode or VLQDecode is gone")
		return
	}
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return
	}
	states := map[*ssa.Package]*ai.State{}
	eval := func(pkg *ssa.Package) *ai.State {
		if st, ok := states[pkg]; ok {
			return st
		}
		c := &initClient{astClient: astClient{m}}
		mach := ai.NewMachine(p.Prog, c)
		mach.InRepo = inRepo
		mach.PosOf = p.Pos
		mach.Limit = 2000
		mach.Start(pkg.Func("init"), mach.NewState(), nil, nil)
		for _, t := range mach.Trouble {
			r.Violation("undecided:"+t, "%s", t)
		}
		// The path that initialises.
		var best *ai.State
		for _, x := range c.exits {
			if x.Panic() == nil && (best == nil || len(x.Globals()) > len(best.Globals())) {
				best = x
			}
		}
		states[pkg] = best
		return best
	}
	tables := func(fn *ssa.Function, what string) []tableValue {
		seen := map[*ssa.Function]bool{}
		work := []*ssa.Function{fn}
		var out []tableValue
		have := map[interface{}]bool{}
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[f] {
				continue
			}
			seen[f] = true
			r.Counts["functions"]++
			work = append(work, callees(f)...)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops [16]*ssa.Value
					for _, op := range in.Operands(ops[:0]) {
						switch g := (*op).(type) {
						case *ssa.Global:
							if have[g] || !pkgInRepo(g.Pkg.Pkg) || !isTable(g.Type().(*types.Pointer).Elem()) {
								continue
							}
							have[g] = true
							st := eval(g.Pkg)
							if st == nil {
								r.Violation("undecided:init", "the initialisation of %s cannot be followed", g.Pkg.Pkg.Path())
								continue
							}
							t, ok := readTable(st, st.Object(st.GlobalObj(g)).V)
							if !ok {
								r.Violation(what+":unknown-table:"+g.Name(), "%s: the values of the table %s, which %s uses, are not constants", p.Pos(g.Pos()), g.Name(), fn.Name())
								continue
							}
							t.name, t.pos = g.Name(), p.Pos(g.Pos())
							out = append(out, t)
						case *ssa.Const:
							if isTable(g.Type()) && g.Value != nil && !have[g.Value.ExactString()] {
								if s, ok := constString(g); ok && len(s) > 1 {
									have[g.Value.ExactString()] = true
									t := tableValue{name: "the constant string", pos: p.Pos(in.Pos()), n: len(s), at: map[int64]int64{}}
									for i := 0; i < len(s); i++ {
										t.at[int64(i)] = int64(s[i])
									}
									out = append(out, t)
								}
							}
						}
					}
				}
			}
		}
		return out
	}
	std := base64.StdEncoding.EncodeToString(stdDigits())
	if std != alphabet {
		r.Violation("self", "the alphabet of this check is wrong")
	}
	et, dt := tables(enc, "encode"), tables(dec, "decode")
	r.Require("tables of the encoder", len(et), 1)
	r.Require("tables of the decoder", len(dt), 1)
	entries := 0
	for _, t := range et {
		if t.n != 64 {
			r.Violation("encode:"+t.name+":length", "%s: the table %s has %d digits instead of 64", t.pos, t.name, t.n)
		}
		for i := 0; i < 64; i++ {
			entries++
			if v, ok := t.at[int64(i)]; !ok || v != int64(alphabet[i]) {
				r.Violation("encode:"+t.name, "%s: digit %d of %s is %q instead of %q", t.pos, i, t.name, rune(v), rune(alphabet[i]))
			}
		}
		r.Sample("encoder: %s at %s", t.name, t.pos)
	}
	for _, t := range dt {
		r.Sample("decoder: %s at %s", t.name, t.pos)
		if isAlphabet(t) {
			continue // the decoder searches the table of the encoder
		}
		var keys []int64
		for k := range t.at {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		for i := 0; i < 64; i++ {
			entries++
			if v, ok := t.at[int64(alphabet[i])]; !ok || v != int64(i) {
				r.Violation("decode:"+t.name, "%s: %s gives %d for %q, which is digit %d", t.pos, t.name, v, rune(alphabet[i]), i)
			}
		}
		for _, k := range keys {
			v := t.at[k]
			if v > 0 && v < 64 && (k < 0 || k > 127 || strings.IndexByte(alphabet, byte(k)) < 0) {
				entries++
				r.Violation("decode:"+t.name, "%s: %s gives %d for %q, which is no digit", t.pos, t.name, v, rune(k))
			}
		}
	}
	r.Require("entries compared", entries, 64)
}

func stdDigits() []byte {
	var bits, n uint
	var out []byte
	for i := uint(0); i < 64; i++ {
		bits, n = bits<<6|i, n+6
		for n >= 8 {
			out = append(out, byte(bits>>(n-8)))
			n -= 8
		}
	}
	return out
}

type tableValue struct {
	name, pos string
	n         int
	at        map[int64]int64
}

func isAlphabet(t tableValue) bool {
	if t.n != 64 {
		return false
	}
	for i := 0; i < 64; i++ {
		if t.at[int64(i)] != int64(alphabet[i]) {
			return false
		}
	}
	return true
}

func isTable(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0
	case *types.Slice:
		return isInt(x.Elem())
	case *types.Array:
		return isInt(x.Elem())
	case *types.Map:
		return isInt(x.Elem()) && isInt(x.Key())
	case *types.Pointer:
		return isTable(x.Elem())
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func constString(c *ssa.Const) (string, bool) {
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString == 0 || c.Value == nil {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// readTable reads a table of integers.
func readTable(st *ai.State, v ai.Value) (tableValue, bool) {
	t := tableValue{at: map[int64]int64{}}
	put := func(k int, v ai.Value) bool {
		i, ok := st.Resolve(v).(ai.Int)
		if !ok {
			return false
		}
		i = st.ResInt(i)
		t.at[int64(k)] = i.Off
		return i.IsConst()
	}
	switch x := st.Resolve(v).(type) {
	case ai.Str:
		s, ok := x.Const()
		if !ok {
			return t, false
		}
		t.n = len(s)
		for i := 0; i < len(s); i++ {
			t.at[int64(i)] = int64(s[i])
		}
		return t, true
	case ai.StructV:
		t.n = len(x.F)
		for i, f := range x.F {
			if !put(i, f) {
				return t, false
			}
		}
		return t, true
	case ai.Ptr:
		if len(x.Path) > 0 {
			return t, false
		}
		o := st.Object(x.Obj)
		if o.Kind == ai.Map {
			if o.Other {
				return t, false
			}
			t.n = len(o.Entries)
			for _, e := range o.Entries {
				k, ok := st.Resolve(e.K).(ai.Int)
				if !ok || !st.ResInt(k).IsConst() || !put(int(st.ResInt(k).Off), e.V) {
					return t, false
				}
			}
			return t, true
		}
		return readTable(st, o.V)
	case ai.SliceV:
		n := st.ResInt(st.SliceLen(x))
		if !n.IsConst() {
			return t, false
		}
		if o := st.Object(x.Obj); o.Kind == ai.Cell {
			a, ok := readTable(st, o.V)
			if !ok || !x.Lo.IsConst() {
				return t, false
			}
			t.n = int(n.Off)
			for i := int64(0); i < n.Off; i++ {
				t.at[i] = a.at[x.Lo.Off+i]
			}
			return t, true
		}
		t.n = int(n.Off)
		for i := 0; i < t.n; i++ {
			if !put(i, st.ElemAt(x.Obj, ai.K(int64(i)))) {
				return t, false
			}
		}
		return t, true
	}
	return t, false
}
