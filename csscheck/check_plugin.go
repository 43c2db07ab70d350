package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C26: the callback that the plugin gives to the bundler, with a compilation that reports any
// combination of faults and may or may not put out the file.

const pluginDriver = `package zzplugin

import (
	"github.com/evanw/esbuild/pkg/api"
	"github.com/stephen/cssc"
	"github.com/stephen/cssc/esbuildplugin"
	"github.com/stephen/cssc/transforms"
)

func choose() bool                                     { return false }
func count() int                                       { return 0 }
func fault(i int) error                                { return nil }
func text() string                                     { return "" }
func output() string                                   { return "" }
func resolver() cssc.Resolver                          { return nil }
func options() transforms.Options                      { return transforms.Options{} }
func compiling(entries []string)                       {}
func put()                                             {}
func check(errs []api.Message, contents *string, err error) {}
func noCallback()                                      {}

// Compile stands for the compilation.
func Compile(o cssc.Options) *cssc.Result {
	compiling(o.Entry)
	for i, n := 0, count(); i < n; i++ {
		o.Reporter.AddError(fault(i))
	}
	r := &cssc.Result{Files: map[string]string{}}
	if other := text(); other != o.Entry[0] {
		r.Files[other] = text()
	}
	if choose() {
		put()
		r.Files[o.Entry[0]] = output()
	}
	return r
}

// Run loads a file with the plugin.
func Run(path string) {
	var opts []esbuildplugin.Option
	if choose() {
		opts = append(opts, esbuildplugin.WithTransforms(options()))
	}
	if choose() {
		opts = append(opts, esbuildplugin.WithResolver(resolver()))
	}
	b := &build{path: path}
	esbuildplugin.Plugin(opts...).Setup(b)
	if !b.called {
		noCallback()
	}
}

type build struct {
	api.PluginBuild
	path   string
	called bool
}

func (b *build) OnLoad(_ api.OnLoadOptions, load func(api.OnLoadArgs) (api.OnLoadResult, error)) {
	b.called = true
	res, err := load(api.OnLoadArgs{Path: b.path})
	check(res.Errors, res.Contents, err)
}
`

func init() {
	register("C26", checkPlugin)
}

type pluginClient struct {
	astClient
	r        *Report
	compile  *ssa.Function // of the driver
	real     *ssa.Function
	message  *types.Named
	location *types.Named
	locErr   map[string]bool
	source   *types.Named
	spanT    *types.Named
	runs     int
	kinds    map[string]int
}

// The numbers of reports. Few faults are located or not independently of each other; of many,
// all, none, or every other one is.
const (
	pluginFew  = 3
	pluginMany = 24
)

func (c *pluginClient) fail(st *ai.State, key, format string, args ...interface{}) {
	st.M.Report(key, "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
	st.Infeasible()
}

func (c *pluginClient) KeepCounters(st *ai.State, head *ssa.BasicBlock) bool { return true }

// LoopHead forgets how lengths compare.
func (c *pluginClient) LoopHead(st *ai.State, head *ssa.BasicBlock) { st.SetRels(nil) }

// StoreValue forgets how much of a line is marked.
func (c *pluginClient) StoreValue(st *ai.State, p ai.Ptr, v ai.Value) ai.Value {
	o := st.Object(p.Obj)
	if o == nil || !types.Identical(o.T, c.location) {
		return v
	}
	for i, f := range structFields(c.location) {
		if f.Name() != "Length" {
			continue
		}
		if len(p.Path) == 1 && !p.Path[0].Elem && p.Path[0].Field == i {
			return ai.Top{}
		}
		if s, ok := v.(ai.StructV); ok && len(p.Path) == 0 {
			out := ai.StructV{F: append([]ai.Value(nil), s.F...)}
			out.F[i] = ai.Top{}
			return out
		}
	}
	return v
}

func (c *pluginClient) faults(st *ai.State) []ai.Value {
	s, _ := st.Ghost["faults"].(ai.StructV)
	return s.F
}

// located says whether the position of a fault is known.
func (c *pluginClient) located(st *ai.State, err ai.Value) bool {
	for i, f := range c.faults(st) {
		if st.SameValue(f, err) {
			s, _ := st.Ghost["=located"].(ai.StructV)
			return s.F[i] == ai.Value(ai.K(1))
		}
	}
	return false
}

// newFault makes a fault.
func (c *pluginClient) newFault(st *ai.State) ai.Value {
	faults := c.faults(st)
	n := 0
	switch st.Ghost["=pattern"].(ai.Tag).S {
	case "any":
		n = st.Choose(2, nil)
	case "all":
		n = 1
	case "every other":
		n = len(faults) % 2
	}
	e := ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No, Label: "fault"})}
	l, _ := st.Ghost["=located"].(ai.StructV)
	st.Ghost["faults"] = ai.StructV{F: append(append([]ai.Value(nil), faults...), e)}
	st.Ghost["=located"] = ai.StructV{F: append(append([]ai.Value(nil), l.F...), ai.K(int64(n)))}
	return e
}

func (c *pluginClient) fault(st *ai.State, v ai.Value) (ai.Value, bool) {
	v = unwrap(st, v)
	for _, f := range c.faults(st) {
		if st.SameValue(f, v) {
			return f, true
		}
	}
	return nil, false
}

func (c *pluginClient) of(st *ai.State, t types.Type, op string, args ...ai.Value) ai.Value {
	s := st.NewDef(t, op, args...)
	switch b, ok := t.Underlying().(*types.Basic); {
	case ok && b.Info()&types.IsString != 0:
		return ai.SymStr(s)
	case ok && b.Info()&types.IsInteger != 0:
		if st.Info(s).Set == nil {
			st.Update(s, func(i *ai.SymInfo) { i.Set = ai.Range(1, 1<<30) })
		}
		return ai.Int{Base: s}
	}
	return ai.SymV{S: s}
}

// span makes a span that is a function of something.
func (c *pluginClient) span(st *ai.State, t types.Type, op string, args ...ai.Value) ai.Value {
	out := ai.StructV{}
	for _, f := range structFields(t.(*types.Named)) {
		out.F = append(out.F, c.of(st, f.Type(), op+"."+f.Name(), args...))
	}
	return out
}

func (c *pluginClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if call.Method != nil {
		return c.method(st, call)
	}
	driver := ""
	if call.Fn != nil && fnPackage(call.Fn) == fnPackage(c.compile) {
		driver = call.Fn.Name()
	}
	switch driver {
	case "choose":
		return st.NewInt("flag", ai.Range(0, 1)), true
	case "count":
		var n int64
		st.Choose(pluginFew+1+3, func(s *ai.State, i int) bool {
			n, s.Ghost["=pattern"] = int64(i), ai.Tag{S: "any"}
			if i > pluginFew {
				n, s.Ghost["=pattern"] = pluginMany, ai.Tag{S: []string{"all", "none", "every other"}[i-pluginFew-1]}
			}
			return true
		})
		return ai.K(n), true
	case "fault":
		return c.newFault(st), true
	case "text":
		return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "text"})), true
	case "output":
		s := ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "output"}))
		st.Ghost["output"] = s
		return s, true
	case "resolver", "options":
		return st.Unknown(call.Fn.Signature.Results().At(0).Type(), driver), true
	case "put":
		st.Ghost["=put"] = ai.Tag{}
		return ai.TupleV{}, true
	case "compiling":
		segs, ok := st.SegsOf(call.Args[0])
		if !ok || len(segs) != 1 || !segs[0].IsElem() || !st.SameValue(segs[0].Elem, st.Ghost["path"]) {
			c.fail(st, "entry", "something other than just the file that is loaded is compiled")
		}
		if st.Ghost["=compiled"] != nil {
			c.fail(st, "twice", "the file is compiled twice")
		}
		st.Ghost["=compiled"] = ai.Tag{}
		return ai.TupleV{}, true
	case "noCallback":
		c.fail(st, "no-callback", "no callback is registered for the files")
	case "check":
		c.check(st, call.Args[0], call.Args[1], call.Args[2])
		return ai.TupleV{}, true
	}
	if call.Fn != nil && call.Fn == c.real {
		return ai.CallInstead{Fn: ai.FuncV{Fn: c.compile}, Args: call.Args, Then: func(n *ai.State, v ai.Value) ai.Value { return v }}, true
	}
	if call.Fn == nil {
		return nil, false
	}
	switch name := call.Name; {
	case name == "errors.As":
		err, ok := c.fault(st, call.Args[0])
		target, isPtr := unwrap(st, call.Args[1]).(ai.Ptr)
		if !ok || !isPtr {
			break
		}
		if !c.located(st, err) {
			return ai.K(0), true
		}
		t := target
		it := call.Common.Args[1]
		elem := types.Type(errorType)
		if mi, ok := it.(*ssa.MakeInterface); ok {
			elem = mi.X.Type().Underlying().(*types.Pointer).Elem()
		}
		s := st.NewDef(elem, "in", err)
		st.Update(s, func(i *ai.SymInfo) { i.Nil = ai.No })
		st.StorePtr(t, ai.SymV{S: s})
		return ai.K(1), true
	case strings.HasSuffix(name, "oops.Errorf"), strings.HasSuffix(name, "oops.Wrapf"), name == "fmt.Errorf", name == "errors.New":
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No, Label: "new error"})}, true
	case strings.HasPrefix(name, "runtime/pprof."), strings.HasPrefix(name, "context."):
		res := call.Fn.Signature.Results()
		if res.Len() == 0 {
			return ai.TupleV{}, true
		}
		if res.Len() == 1 {
			return st.Unknown(res.At(0).Type(), call.Fn.Name()), true
		}
	case strings.HasSuffix(name, "internal/sources.Source).LineAndCol"):
		res := call.Fn.Signature.Results()
		out := ai.TupleV{}
		for i, op := range []string{"line", "column"} {
			out.V = append(out.V, c.of(st, res.At(i).Type(), op, call.Args...))
		}
		return out, true
	case strings.HasSuffix(name, "internal/sources.Source).FullLine"):
		return c.span(st, call.Fn.Signature.Results().At(0).Type(), "full", call.Args...), true
	}
	return c.astClient.Call(st, call)
}

func (c *pluginClient) method(st *ai.State, call *ai.Call) (ai.Value, bool) {
	recv := call.Args[0]
	switch call.Method.Name() {
	case "Error":
		if e, ok := c.fault(st, recv); ok {
			return c.of(st, stringType, "text", e), true
		}
	case "Location":
		if s, ok := unwrap(st, recv).(ai.SymV); ok {
			if d := st.Info(s.S).Def; d != nil && d.Op == "in" {
				res := call.Method.Type().(*types.Signature).Results()
				src := st.NewDef(res.At(0).Type(), "source", d.Args[0])
				st.Update(src, func(i *ai.SymInfo) { i.Nil = ai.No })
				return ai.TupleV{V: []ai.Value{ai.SymV{S: src}, c.span(st, res.At(1).Type(), "span", d.Args[0])}}, true
			}
		}
	}
	return nil, false
}

func (c *pluginClient) check(st *ai.State, errs, contents, err ai.Value) {
	c.runs++
	faults := c.faults(st)
	segs, ok := st.SegsOf(errs)
	if !ok {
		st.Undecided("the messages for the bundler")
	}
	hasContents := !st.DecideNil(st.Resolve(contents))
	hasErr := !st.DecideNil(st.Resolve(err))
	if st.Ghost["=compiled"] == nil {
		c.fail(st, "not-compiled", "the file is not compiled")
	}
	if len(faults) == 0 {
		c.kinds["nothing reported"]++
		if st.Ghost["=put"] == nil {
			c.kinds["no output"]++
			if hasContents || !hasErr && len(segs) == 0 {
				c.fail(st, "missing-output", "the file is not in the output, and that is no error for the bundler")
			}
			return
		}
		if hasErr || len(segs) > 0 || !hasContents {
			c.fail(st, "refused", "nothing was reported and the file is in the output, but the bundler does not get it")
		}
		p, ok := st.Resolve(contents).(ai.Ptr)
		if !ok || !st.SameValue(st.LoadPtr(p, stringType), st.Ghost["output"]) {
			c.fail(st, "other-contents", "the contents are not those of the output")
		}
		return
	}
	c.kinds["something reported"]++
	if hasContents {
		c.fail(st, "contents-despite", "contents are handed over although something was reported")
	}
	if hasErr {
		c.fail(st, "error-hides", "an error is returned along with the messages, which the bundler then ignores")
	}
	if len(segs) != len(faults) {
		c.fail(st, "number", "%d messages for %d reports", len(segs), len(faults))
	}
	used := map[int]bool{}
	for _, s := range segs {
		m, ok := st.Resolve(s.Elem).(ai.StructV)
		if !s.IsElem() || !ok {
			st.Undecided("a message for the bundler")
		}
		n := -1
		for i, f := range faults {
			if !used[i] && st.SameValue(c.part(m, c.message, "Text"), c.of(st, stringType, "text", f)) {
				n = i
				break
			}
		}
		if n < 0 {
			c.fail(st, "text", "a message does not say what was reported, or says something twice")
		}
		used[n] = true
		c.messageOf(st, m, faults[n])
	}
}

// part is a field of a struct.
func (c *pluginClient) part(v ai.StructV, t *types.Named, name string) ai.Value {
	for i, f := range structFields(t) {
		if f.Name() == name && i < len(v.F) {
			return v.F[i]
		}
	}
	return ai.Top{}
}

func (c *pluginClient) messageOf(st *ai.State, m ai.StructV, f ai.Value) {
	p := st.Resolve(c.part(m, c.message, "Location"))
	located := c.located(st, f)
	if st.DecideNil(p) {
		if located {
			c.fail(st, "no-location", "a message has no location, although that of what was reported is known")
		}
		return
	}
	if !located {
		c.fail(st, "made-up-location", "a message has a location, although that of what was reported is not known")
	}
	ptr, ok := p.(ai.Ptr)
	if !ok {
		st.Undecided("the location of a message")
	}
	loc, ok := st.LoadPtr(ptr, c.location).(ai.StructV)
	if !ok {
		st.Undecided("the location of a message")
	}
	c.kinds["located message"]++
	src := st.Resolve(ai.SymV{S: st.NewDef(types.NewPointer(c.source), "source", f)})
	span := c.span(st, c.spanT, "span", f)
	for i, field := range []string{"Line", "Column"} {
		want := c.of(st, types.Typ[types.Int32], []string{"line", "column"}[i], src, span).(ai.Int)
		if field == "Column" {
			want = want.Add(-1) // the bundler counts from 0
		}
		if got, ok := st.Resolve(c.part(loc, c.location, field)).(ai.Int); !ok || st.Equal(got, want) != ai.Yes {
			c.fail(st, "location:"+field, "%s of a message is not that of the reported position", strings.ToLower(field))
		}
	}
	if o, ok := src.(ai.Ptr); ok {
		v, _ := st.LoadPtr(o, c.source).(ai.StructV)
		if !st.SameValue(c.part(v, c.source, "Path"), c.part(loc, c.location, "File")) {
			c.fail(st, "location:File", "the file of a message is not that of the reported position")
		}
	}
}

func checkPlugin(p0 *Program, r *Report) {
	r.Rule = "contents are handed over only if nothing was reported, and are those of the output; otherwise there is exactly one message for each report, with its text and its position if that is known, and no error that would hide them; a missing output is an error"
	r.Explanation = fmt.Sprintf("Abstract interpretation, in SSA form, of the callback that the plugin registers with the bundler, over all paths, with every combination of plugin options. The compilation is replaced by one that makes any number up to %d of reports, each of which may be located, or %d of them that all, not at all or alternately are, and that may or may not put out the file, with others beside it.", pluginFew, pluginMany)
	r.Assumptions = []string{"the compilation reports to the reporter of its options, one at a time (C09, C10), under the paths of its entries (C32)", "LineAndCol is right (C30)", "esbuild ignores messages if the callback also returns an error, as it does in the version in go.mod"}
	p, err := loadProgram(p0.Root, map[string][]byte{
		filepath.Join(p0.Root, "internal", "zzplugin", "driver.go"): []byte(pluginDriver),
	})
	if err != nil {
		r.Violation("anchor", "the driver does not build: %v", err)
		return
	}
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return
	}
	pkg := p.Pkgs["internal/zzplugin"]
	root := p.Pkgs[""]
	if pkg == nil || root == nil || root.Func("Compile") == nil {
		r.Violation("anchor", "the plugin or the compilation is gone")
		return
	}
	c := &pluginClient{astClient: astClient{m}, r: r, compile: pkg.Func("Compile"), real: root.Func("Compile"), kinds: map[string]int{}, source: p.Named("internal/sources", "Source"), spanT: p.Named("internal/ast", "Span")}
	for _, imp := range pkg.Pkg.Imports() {
		if imp.Name() == "api" {
			c.message, _ = imp.Scope().Lookup("Message").Type().(*types.Named)
			c.location, _ = imp.Scope().Lookup("Location").Type().(*types.Named)
		}
	}
	if c.message == nil || c.location == nil || c.source == nil || c.spanT == nil {
		r.Violation("anchor", "the messages of the bundler, or sources.Source, are not what they were")
		return
	}
	mach := ai.NewMachine(p.Prog, c)
	mach.InRepo = inRepo
	mach.PosOf = p.Pos
	mach.Debug = verbose
	mach.Limit = 4000
	mach.Enough = 100000
	st := mach.NewState()
	path := ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "path"}))
	st.Ghost["path"] = path
	mach.Start(pkg.Func("Run"), st, []ai.Value{path}, nil)
	for _, f := range mach.Findings {
		r.Violation(f.Key, "%s", f.Msg)
	}
	for _, t := range mach.Trouble {
		r.Violation("undecided:"+t, "%s", t)
	}
	r.Counts["steps"] = mach.Steps
	r.Require("loads", c.runs, 40)
	for _, k := range []string{"nothing reported", "something reported", "no output", "located message"} {
		r.Require(k, c.kinds[k], 1)
	}
}
