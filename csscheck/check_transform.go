package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C02, C11–C18, C33: what the transforms make of trees, with symbolic texts and parts.

func init() {
	for id, c := range transformChecks {
		id, c := id, c
		if id != "C11" && id != "C02" {
			register(id, func(p *Program, r *Report) { checkTransform(p, r, id, c) })
		}
	}
}

type transformCheck struct {
	drivers []string
	kinds   []string
	rule    string
	what    string
}

var transformChecks = map[string]transformCheck{
	"C13": {[]string{"Off", "OffCustomMedia"}, []string{"imports", "ranges", ":any-link", "custom properties", "uses of custom media", "math functions", "definitions of custom media"}, "with a transform off, the construct that it is about comes out once, in place and the same, whatever the settings of the other transforms that leave it alone",
		transformWhat},
	"C14": {[]string{"Ranges"}, []string{"ranges"}, "the conditions that a range is lowered to are those of the specification, for all operators and sides, as terms over the symbolic name, values and units",
		transformWhat},
	"C15": {[]string{"AnyLink"}, []string{"selectors"}, "the alternatives of a transformed selector list are those that replace each :any-link by :link or :visited, as a set, down to nested lists",
		transformWhat},
	"C16": {[]string{"Calc"}, []string{"math"}, "a math expression is replaced by a dimension only if the specification says that it has a value, and then the value (as a term over the values of the operands) and the unit are those of the specification; everything else stays",
		transformWhat},
	"C17": {[]string{"Definitions"}, []string{"definitions", "definitions in a block"}, "definitions are taken (and removed) from the rules for which the specification says so, and only they are substituted; everything else stays",
		transformWhat},
	"C18": {[]string{"Places"}, []string{"var()", "calc()", ":any-link", "ranges", "var() in a fallback or a definition"}, "a construct is replaced as the specification says in all the places where the driver puts it",
		transformWhat},
	"C33": {[]string{"CustomMedia"}, []string{"custom media"}, "uses of defined custom media are replaced by all parts of the definition, definitions are removed, all else stays",
		transformWhat},
	"C12": {[]string{"Imports", "Off", "Ranges", "AnyLink", "Calc", "Definitions", "Places", "CustomMedia"}, []string{"a diamond", "imports", "ranges", ":any-link", "custom properties", "uses of custom media", "math functions", "selectors", "math", "definitions", "var()", "calc()", "var() in a fallback or a definition", "custom media"}, "while Transform runs, nothing that was part of a tree given to it is written: no field, no element of a list, no memory behind a list that an append may reuse",
		"Abstract interpretation of Transform and what it calls, in SSA form, over all the trees of the other checks of transforms (with symbolic texts, parts and settings) and over graphs of imports; every store, copy and append is looked at."},
	"C11": {[]string{"Imports"}, []string{"no import", "a file that imports itself", "two files that import each other", "a cycle behind an import", "an import that imports itself", "a cycle of three", "a diamond", "an import that is not inlined", "many imports", "imports in imports"}, "inlining never follows a stylesheet that is being inlined already: for import graphs of ten shapes (cycles, diamonds, chains), Transform returns, and the rules of the result are those of the specification",
		"Transform is then interpreted abstractly over graphs of imported stylesheets, with symbolic texts."},
	"C02": {[]string{"Imports", "Off", "OffCustomMedia", "Ranges", "AnyLink", "Calc", "Definitions", "Places", "CustomMedia"}, []string{"a diamond", "imports", "ranges", ":any-link", "custom properties", "uses of custom media", "math functions", "selectors", "math", "definitions", "var()", "calc()", "var() in a fallback or a definition", "custom media"}, "no panic gets out of Transform",
		"Transform is interpreted abstractly over all the trees and settings of the checks of transforms."},
}

const transformWhat = "Abstract interpretation of Transform and what it calls, in SSA form, over the trees that a driver package (in an overlay, analysed with the library's source) makes: all their texts, numbers, flags, positions and settings are symbolic, and parts that are left open may be any node that the library builds. The result is compared, on every path, with that of a specification written for the driver."

type transformClient struct {
	astClient
	pkg   *types.Package
	kinds map[string]int
	done  map[string]int

	id     string // of the property
	stores int    // while transforming

	shard, shards int // the choice of split, and the number of them
}

func (c *transformClient) fail(st *ai.State, key, format string, args ...interface{}) {
	st.M.Report(key, "%s\n    path: %s", fmt.Sprintf(format, args...), st.Path())
	st.Infeasible()
}

func (c *transformClient) KeepCounters(st *ai.State, head *ssa.BasicBlock) bool { return true }

func (c *transformClient) LoopHead(st *ai.State, head *ssa.BasicBlock) {}

// Candidates of parts that the driver leaves open are all but those that it makes itself.
func (c *transformClient) Candidates(st *ai.State, s ai.Sym) []types.Type {
	all := c.astClient.Candidates(st, s)
	var not string
	switch st.Info(s).Label {
	case "other value":
		not = " Function Brackets MathExpression MathParenthesizedExpression "
	case "other part":
		not = " PseudoClassSelector PseudoElementSelector Whitespace "
	default:
		return all
	}
	var out []types.Type
	for _, t := range all {
		if !strings.Contains(not, " "+c.m.nodeName(t)+" ") {
			out = append(out, t)
		}
	}
	return out
}

// quiet says whether a comparison is of no interest to the property.
func (c *transformClient) quiet(what string) bool {
	switch c.id {
	case "C11":
		return what != "followed"
	case "C12":
		return what != "contributes"
	case "C02":
		return true
	}
	return false
}

// input says whether an object is a part of a tree that is being transformed.
func (c *transformClient) input(st *ai.State, id ai.ObjID) bool {
	if c.id != "C12" || st.Ghost["=sealed"] == nil {
		return false
	}
	o := st.Object(id)
	if o.Ext != 0 && o.Kind == ai.List && c.input(st, o.Ext) {
		return true // a part of it
	}
	t := o.T
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == c.m.pkg.Pkg && (o.Input || o.Flags&sealed != 0)
}

func (c *transformClient) Store(st *ai.State, p ai.Ptr, v ai.Value) {
	if st.Ghost["=sealed"] != nil {
		c.stores++
	}
	if c.input(st, p.Obj) {
		st.M.Report("store:"+c.kind(st)+":"+typeName(st.Object(p.Obj).T), "%s: a %s of the tree that is transformed is written to\n    path: %s", st.Where(), typeName(st.Object(p.Obj).T), st.Path())
	}
}

func (c *transformClient) Overwrites(st *ai.State, list ai.ObjID) {
	if st.Ghost["=sealed"] != nil {
		c.stores++
	}
	if c.input(st, list) {
		st.M.Report("append:"+c.kind(st)+":"+typeName(st.Object(list).T), "%s: elements are put into the memory of a list of %ss of the tree that is transformed\n    path: %s", st.Where(), typeName(st.Object(list).T), st.Path())
	}
}

func (c *transformClient) kind(st *ai.State) string {
	t, _ := st.Ghost["=kind"].(ai.Tag)
	return t.S
}

func (c *transformClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if call.Method != nil {
		switch call.Method.Name() {
		case "Location":
			if s, ok := st.Resolve(call.Args[0]).(ai.SymV); ok {
				st.Update(s.S, func(i *ai.SymInfo) { i.Nil = ai.No })
				return st.Unknown(c.m.span, "span"), true
			}
		case "Error", "String":
			return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "text"})), true
		}
		return nil, false
	}
	if call.Fn == nil {
		return nil, false
	}
	if fnPackage(call.Fn) == c.pkg && call.Fn.Signature.Recv() == nil && call.Fn.Parent() == nil {
		if v, ok := c.driver(st, call); ok {
			return v, true
		}
		return nil, false
	}
	switch name := call.Name; {
	case strings.HasSuffix(name, "internal/logging.LocationErrorf"), strings.HasSuffix(name, "internal/logging.LocationWarnf"), name == "fmt.Errorf", name == "errors.New", strings.HasSuffix(name, "oops.Errorf"):
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No, Label: "error"})}, true
	case name == "reflect.TypeOf":
		v := st.Unknown(call.Fn.Signature.Results().At(0).Type(), "type")
		if s, ok := v.(ai.SymV); ok {
			st.Update(s.S, func(i *ai.SymInfo) { i.Nil = ai.No })
		}
		return v, true
	}
	return c.astClient.Call(st, call)
}

func (c *transformClient) text(st *ai.State, v ai.Value) string {
	s, _ := st.Resolve(v).(ai.Str)
	l, _ := s.Const()
	return l
}

func (c *transformClient) driver(st *ai.State, call *ai.Call) (ai.Value, bool) {
	res := call.Fn.Signature.Results()
	switch call.Fn.Name() {
	case "pick":
		n, ok := st.Resolve(call.Args[0]).(ai.Int)
		if !ok || !n.IsConst() {
			st.Undecided("the number of choices")
		}
		return ai.K(int64(st.Choose(int(n.Off), nil))), true
	case "split":
		n, _ := st.Resolve(call.Args[0]).(ai.Int)
		if int64(c.shard) >= n.Off {
			st.Infeasible()
		}
		c.shards = int(n.Off)
		return ai.K(int64(c.shard)), true
	case "flag":
		return st.NewInt("flag", ai.Range(0, 1)), true
	case "setting":
		n, _ := st.Resolve(call.Args[0]).(ai.Int)
		return st.NewInt("setting", ai.Range(0, n.Off-1)), true
	case "text":
		return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "text"})), true
	case "span":
		return st.Unknown(c.m.span, "span"), true
	case "otherValue":
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: res.At(0).Type(), Nil: ai.No, Label: "other value"})}, true
	case "otherPart":
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: res.At(0).Type(), Nil: ai.No, Label: "other part"})}, true
	case "assume":
		if !st.DecideBool(call.Args[0]) {
			st.Infeasible()
		}
		return ai.TupleV{}, true
	case "seal":
		for i := 1; i < st.Objs(); i++ {
			id := ai.ObjID(i)
			if st.Object(id) != nil {
				st.UpdateObj(id, func(o *ai.Obj) { o.Flags |= sealed })
			}
		}
		st.Ghost["=sealed"] = ai.Tag{S: "yes"}
		return ai.TupleV{}, true
	case "unseal":
		delete(st.Ghost, "=sealed")
		return ai.TupleV{}, true
	case "compared":
		c.done[c.kind(st)]++
		return ai.TupleV{}, true
	case "clone":
		keep, _ := st.Resolve(call.Args[1]).(ai.Ptr)
		return c.clone(st, call.Args[0], keep.Obj, map[ai.ObjID]ai.ObjID{}), true
	case "same", "sameAlternatives", "contributes", "followed":
		kind := c.kind(st)
		c.done[kind]++
		if c.quiet(call.Fn.Name()) {
			return ai.TupleV{}, true
		}
		if d := c.differ(st, c.unwrap(st, call.Args[0]), c.unwrap(st, call.Args[1]), call.Fn.Name() == "sameAlternatives"); d != "" {
			c.fail(st, call.Fn.Name()+":"+kind+":"+d, "%s: %s", c.text(st, call.Args[2]), d)
		}
		return ai.TupleV{}, true
	case "equal":
		return ai.Bool(c.differ(st, c.unwrap(st, call.Args[0]), c.unwrap(st, call.Args[1]), false) == ""), true
	case "require":
		c.done[c.kind(st)]++
		if !st.DecideBool(call.Args[0]) {
			if c.quiet("require") {
				st.Infeasible()
			}
			what := c.text(st, call.Args[1])
			c.fail(st, "require:"+c.kind(st)+":"+what, "%s: %s", c.kind(st), what)
		}
		return ai.TupleV{}, true
	case "begin":
		k := c.text(st, call.Args[0])
		c.kinds[k]++
		st.Ghost["=kind"] = ai.Tag{S: k}
		return ai.TupleV{}, true
	}
	return nil, false
}

const sealed = 1 << 30

func (c *transformClient) unwrap(st *ai.State, v ai.Value) ai.Value {
	v = st.Resolve(v)
	if i, ok := v.(ai.Iface); ok {
		if _, isStr := st.Resolve(i.V).(ai.Str); isStr {
			return st.Resolve(i.V)
		}
	}
	return v
}

// clone copies what can be reached, but for one object and for what is open.
func (c *transformClient) clone(st *ai.State, v ai.Value, keep ai.ObjID, seen map[ai.ObjID]ai.ObjID) ai.Value {
	vals := func(vs []ai.Value) []ai.Value {
		out := make([]ai.Value, len(vs))
		for i, v := range vs {
			out[i] = c.clone(st, v, keep, seen)
		}
		return out
	}
	switch v := st.Resolve(v).(type) {
	case ai.Ptr:
		if v.Obj == keep || len(v.Path) > 0 {
			return v
		}
		if id, ok := seen[v.Obj]; ok {
			return ai.Ptr{Obj: id}
		}
		o := st.Object(v.Obj)
		if o.Kind != ai.Cell || o.Input {
			return v
		}
		id := st.NewObj(&ai.Obj{Kind: ai.Cell, T: o.T, Label: o.Label})
		seen[v.Obj] = id
		inner := c.clone(st, o.V, keep, seen)
		st.UpdateObj(id, func(o *ai.Obj) { o.V = inner })
		return ai.Ptr{Obj: id}
	case ai.Iface:
		return ai.Iface{T: v.T, V: c.clone(st, v.V, keep, seen)}
	case ai.StructV:
		return ai.StructV{F: vals(v.F)}
	case ai.SliceV:
		segs, ok := st.SegsOf(v)
		if !ok {
			st.Undecided("copy of a list")
		}
		var out []ai.Seg
		for _, s := range segs {
			if !s.IsElem() {
				st.Undecided("copy of a list")
			}
			out = append(out, ai.Seg{Elem: c.clone(st, s.Elem, keep, seen)})
		}
		return ai.SliceV{Obj: st.NewObj(&ai.Obj{Kind: ai.List, T: st.Object(v.Obj).T, Segs: out}), Whole: true}
	default:
		return v
	}
}

// differ says how trees differ, or nothing. What is wanted need not have positions.
func (c *transformClient) differ(st *ai.State, got, want ai.Value, alternatives bool) string {
	return c.differAs(st, nil, got, want, alternatives)
}

func (c *transformClient) differAs(st *ai.State, t types.Type, got, want ai.Value, alt bool) string {
	got, want = st.Resolve(got), st.Resolve(want)
	if st.SameValue(got, want) {
		return ""
	}
	switch w := want.(type) {
	case ai.Nil:
		if s, ok := got.(ai.SliceV); ok {
			if segs, ok := st.SegsOf(s); ok && len(segs) == 0 {
				return ""
			}
		}
		if s, ok := got.(ai.SymV); ok && st.DecideNil(s) {
			return ""
		}
		return "something where there should be nothing"
	case ai.Iface:
		g, ok := got.(ai.Iface)
		if !ok {
			return "something else than a " + typeName(w.T)
		}
		if !types.Identical(g.T, w.T) {
			return fmt.Sprintf("a %s instead of a %s", typeName(g.T), typeName(w.T))
		}
		return c.differAs(st, w.T, g.V, w.V, alt)
	case ai.SymV:
		// A copy of something that is open.
		g, ok := got.(ai.Ptr)
		if !ok || st.Info(w.S).T == nil {
			return "something else than what was open"
		}
		if _, isPtr := st.Info(w.S).T.Underlying().(*types.Pointer); !isPtr {
			return "something else than what was open"
		}
		return c.differAs(st, t, g, st.Deref(w, st.Info(w.S).T), alt)
	case ai.Ptr:
		if s, ok := got.(ai.SymV); ok {
			if _, isPtr := st.Info(s.S).T.Underlying().(*types.Pointer); isPtr && !st.DecideNil(s) {
				got = st.Deref(s, st.Info(s.S).T)
			}
		}
		g, ok := got.(ai.Ptr)
		if !ok {
			return "nothing where there should be something"
		}
		et := st.Object(w.Obj).T
		return c.differAs(st, et, st.LoadPtr(g, et), st.LoadPtr(w, et), alt)
	case ai.StructV:
		g, ok := got.(ai.StructV)
		named, isNamed := t.(*types.Named)
		if !ok || len(g.F) != len(w.F) {
			return "something else"
		}
		if isNamed && named == c.m.span {
			if st.SameValue(w, st.M.Zero(st, t)) {
				return ""
			}
			for i := range w.F {
				if d := c.differAs(st, nil, g.F[i], w.F[i], alt); d != "" {
					return "another position"
				}
			}
			return ""
		}
		for i := range w.F {
			var ft types.Type
			name := "field"
			if isNamed {
				if s, ok := named.Underlying().(*types.Struct); ok && i < s.NumFields() {
					ft, name = s.Field(i).Type(), named.Obj().Name()+"."+s.Field(i).Name()
				}
			}
			if d := c.differAs(st, ft, g.F[i], w.F[i], alt); d != "" {
				if strings.HasPrefix(d, "in ") || name == "field" {
					return d
				}
				return "in " + name + ": " + d
			}
		}
		return ""
	case ai.SliceV:
		ws, ok := st.SegsOf(w)
		gs, gok := st.SegsOf(got)
		if !ok || !gok {
			st.Undecided("comparison of lists")
		}
		et := st.Object(w.Obj).T
		if alt && typeName(et) == "Selector" {
			return c.differSets(st, et, gs, ws)
		}
		if len(ws) != len(gs) {
			return fmt.Sprintf("%d elements instead of %d", len(gs), len(ws))
		}
		for i := range ws {
			if !ws[i].IsElem() || !gs[i].IsElem() {
				st.Undecided("comparison of lists")
			}
			if d := c.differAs(st, et, gs[i].Elem, ws[i].Elem, alt); d != "" {
				return d
			}
		}
		return ""
	case ai.Str:
		g, ok := got.(ai.Str)
		if !ok || st.StrEqual(g, w) != ai.Yes {
			return fmt.Sprintf("%s instead of %s", st.Describe(got), st.Describe(w))
		}
		return ""
	case ai.Int:
		g, ok := got.(ai.Int)
		if !ok || st.Equal(g, w) != ai.Yes {
			return "another number or flag"
		}
		return ""
	}
	return fmt.Sprintf("%s instead of %s", st.Describe(got), st.Describe(want))
}

// differSets compares lists whose order and repetitions do not matter.
func (c *transformClient) differSets(st *ai.State, et types.Type, gs, ws []ai.Seg) string {
	in := func(x ai.Value, ys []ai.Seg, flip bool) bool {
		for _, y := range ys {
			g, w := x, y.Elem
			if flip {
				g, w = w, g
			}
			if c.differAs(st, et, g, w, true) == "" {
				return true
			}
		}
		return false
	}
	for _, w := range ws {
		if !in(w.Elem, gs, true) {
			return "an alternative is missing or not right"
		}
	}
	for _, g := range gs {
		if !in(g.Elem, ws, false) {
			return "an alternative too many"
		}
	}
	return ""
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func checkTransform(p0 *Program, r *Report, id string, tc transformCheck) {
	r.Rule = tc.rule
	r.Explanation = tc.what
	r.Assumptions = []string{"the trees have the shapes that the driver makes: nesting and numbers of elements are bounded, names, values, units, operators and other parts are not", "numbers are terms: that floating-point arithmetic is exact is not decided (C41)"}
	runTransform(p0, r, id, tc)
}

func runTransform(p0 *Program, r *Report, id string, tc transformCheck) {
	p, err := loadProgram(p0.Root, map[string][]byte{
		filepath.Join(p0.Root, "internal", "zztransform", "driver.go"): []byte(transformDriver),
	})
	if err != nil {
		r.Violation("anchor", "the driver does not build: %v", err)
		return
	}
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return
	}
	pkg := p.Pkgs["internal/zztransform"]
	kindsOf, done := map[string]int{}, map[string]int{}
	for _, d := range tc.drivers {
		// The first shard says how many there are.
		first := transformShard(p, m, pkg, id, d, 0)
		runs := make([]*transformRun, max(1, first.c.shards))
		runs[0] = first
		var wg sync.WaitGroup
		slots := make(chan bool, 4) // They take much memory.
		for i := 1; i < len(runs); i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				slots <- true
				defer func() { <-slots }()
				runs[i] = transformShard(p, m, pkg, id, d, i)
			}(i)
		}
		wg.Wait()
		for _, run := range runs {
			if run.crash != "" {
				r.Violation("internal", "%s", run.crash)
				continue
			}
			for _, f := range run.found {
				if id == "C02" && !strings.HasPrefix(f[0], "panic:") && !strings.HasPrefix(f[0], "undecided:") {
					continue
				}
				r.Violation(f[0], "%s", f[1])
			}
			for k, n := range run.c.kinds {
				kindsOf[k] += n
			}
			for k, n := range run.c.done {
				done[k] += n
			}
			r.Counts["steps"] += run.steps
			r.Counts["writes to memory"] += run.c.stores
		}
	}
	var kinds []string
	for k := range kindsOf {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		r.Counts["transformed: "+k] = kindsOf[k]
		r.Counts["compared: "+k] = done[k]
	}
	for _, k := range tc.kinds {
		r.Require("transformed: "+k, kindsOf[k], 1)
		if id == "C02" {
			continue
		}
		r.Require("compared: "+k, done[k], 1)
	}
}

type transformRun struct {
	c     *transformClient
	found [][2]string // keys and messages
	steps int
	crash string
}

// transformShard analyses a driver with one choice of split.
func transformShard(p *Program, m *astModel, pkg *ssa.Package, id, driver string, shard int) (run *transformRun) {
	own := *m
	own.cands = map[string][]types.Type{}
	run = &transformRun{c: &transformClient{astClient: astClient{&own}, pkg: pkg.Pkg, id: id, kinds: map[string]int{}, done: map[string]int{}, shard: shard}}
	defer func() {
		if e := recover(); e != nil {
			run.crash = fmt.Sprintf("%s: %v\n%s", driver, e, debug.Stack())
		}
	}()
	mach := ai.NewMachine(p.Prog, run.c)
	mach.InRepo = inRepo
	mach.PosOf = p.Pos
	mach.Debug = verbose
	mach.Limit = 200000
	mach.Budget = 200000000
	mach.Enough = 20000
	mach.Depth = 300
	mach.Unify = true
	mach.Start(pkg.Func(driver), mach.NewState(), nil, nil)
	run.steps = mach.Steps
	for _, f := range mach.Findings {
		run.found = append(run.found, [2]string{f.Key, f.Msg})
	}
	for _, t := range mach.Trouble {
		run.found = append(run.found, [2]string{"undecided:" + t, t})
	}
	for _, x := range mach.Top.Exits() {
		if x.Panic() != nil && id != "C11" && id != "C12" {
			msg, _ := ai.RuntimePanic(x.Panic())
			run.found = append(run.found, [2]string{"panic:" + driver, fmt.Sprintf("a transform panics: %s\n    path: %s", msg, x.Path())})
		}
	}
	for _, cyc := range mach.Cycles(false) {
		run.found = append(run.found, [2]string{"cycle:" + driver, fmt.Sprintf("a transform does not end: %s", cyc)})
	}
	if verbose {
		fmt.Println(driver, shard, run.steps, run.c.kinds, run.c.done)
	}
	return run
}
