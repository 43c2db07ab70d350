package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// The printer is analysed in two phases. First Print, with a tree that is not looked into: this
// tells which function prints a node, in which state it is called, which text builder becomes
// the output, and what is appended to it. Then that function, for each kind of node that the
// library builds: the text that it writes must be the one of the specification, where the text
// of a child is whatever the function prints for it.

type printerClient struct {
	astClient
	r     *Report
	em    *emitter
	sccs  map[*ssa.Function]bool // recursive functions
	phase int

	calls   []capturedCall
	outs    map[string]bool // labels of the builders that become the output
	results []printResult

	mods   map[string]modPath
	newMod bool

	fn     *ssa.Function
	name   string // the kind of node
	prop   string // the property that is decided
	called map[string]bool
}

type capturedCall struct {
	fn   *ssa.Function
	st   *ai.State
	args []ai.Value
	arg  int
}

type printResult struct {
	text    ai.Value
	source  ai.Tri
	st      *ai.State
	err     bool
	panics  string
	printed bool
}

type modPath struct {
	typ  string
	path []int
	t    types.Type
}

func init() {
	for _, id := range []string{"C04", "C23", "C25"} {
		id := id
		register(id, func(p *Program, r *Report) { checkPrinter(p, r, id) })
	}
}

// recursiveFuncs are the functions of the repository that may call themselves.
func recursiveFuncs(p *Program) map[*ssa.Function]bool {
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.All {
		succ[fn] = callees(fn)
	}
	out := map[*ssa.Function]bool{}
	for _, fn := range p.All {
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function(nil), succ[fn]...)
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			if f == fn {
				out[fn] = true
				break
			}
			if !seen[f] {
				seen[f] = true
				work = append(work, succ[f]...)
			}
		}
	}
	return out
}

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

const (
	outTag   = "output"
	otherTag = "other output"
)

func (c *printerClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if c.phase == 2 && call.Fn != nil && strings.HasSuffix(call.Name, "sources.Source).LineAndCol") {
		return c.lineAndCol(st, call), true
	}
	if call.Fn != nil && strings.HasSuffix(call.Name, "printer.VLQEncode") {
		if _, top := call.Args[0].(ai.Top); top {
			return ai.SymStr(st.NewSym(ai.SymInfo{T: types.Typ[types.String], Label: "vlq"})), true
		}
		return ai.SymStr(st.NewDef(types.Typ[types.String], "vlq", call.Args[0])), true
	}
	if v, ok := builderCall(st, call, c.write); ok {
		return v, ok
	}
	switch call.Name {
	case "encoding/json.Marshal":
		v := call.Args[0]
		d := st.NewDef(types.Typ[types.String], "json", v)
		if st.DecideTop() {
			return ai.TupleV{V: []ai.Value{ai.SymStr(d), ai.Nil{}}}, true
		}
		e := st.NewSym(ai.SymInfo{T: types.Universe.Lookup("error").Type(), Nil: ai.No, Label: "error"})
		return ai.TupleV{V: []ai.Value{ai.Nil{}, ai.SymV{S: e}}}, true
	case "(*encoding/base64.Encoding).EncodeToString":
		if s, ok := st.Resolve(call.Args[1]).(ai.Str); ok {
			if c.stdEncoding(st, call) {
				return ai.SymStr(st.NewDef(types.Typ[types.String], "base64", s)), true
			}
		}
		return ai.SymStr(st.NewSym(ai.SymInfo{T: types.Typ[types.String], Label: "text in another encoding"})), true
	case "reflect.TypeOf":
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: call.Common.Signature().Results().At(0).Type(), Nil: ai.No})}, true
	case "(reflect.Type).String":
		return ai.SymStr(st.NewSym(ai.SymInfo{T: types.Typ[types.String], Label: "type name"})), true
	case "fmt.Errorf", "errors.New":
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: types.Universe.Lookup("error").Type(), Nil: ai.No, Label: "error"})}, true
	}
	if call.Fn == nil || !inRepo(call.Fn) || !c.sccs[call.Fn] {
		return nil, false
	}
	// A call of the recursive printing function for a node that is not looked into?
	for i, p := range call.Fn.Params {
		if _, ok := p.Type().Underlying().(*types.Interface); !ok || !c.m.isNodeType(p.Type()) {
			continue
		}
		v := st.Resolve(call.Args[i])
		if c.phase == 1 {
			if s, ok := v.(ai.SymV); ok && st.Info(s.S).Label == "tree" {
				return c.captured(st, call, i), true
			}
			continue
		}
		if sameNode(st, v, st.Ghost["root"]) {
			continue // the node itself, for example in a part of the function
		}
		if !c.isNodeValue(st, v) || !c.printing(call.Fn) {
			continue
		}
		return c.nested(st, call, v), true
	}
	return nil, false
}

// printing says whether a function is one that prints nodes of any depth: the one that Print
// calls, or one that is recursive without it.
func (c *printerClient) printing(fn *ssa.Function) bool {
	main := map[*ssa.Function]bool{}
	for _, k := range c.calls {
		main[k.fn] = true
	}
	if main[fn] {
		return true
	}
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), callees(fn)...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == fn {
			return true
		}
		if !seen[f] && !main[f] {
			seen[f] = true
			work = append(work, callees(f)...)
		}
	}
	return false
}

// callees are the functions of the repository that a function mentions.
func callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if *op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok && inRepo(f) {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (c *printerClient) isNodeValue(st *ai.State, v ai.Value) bool {
	switch x := v.(type) {
	case ai.Nil:
		return true
	case ai.SymV:
		return c.m.isNodeType(st.Info(x.S).T)
	case ai.Iface:
		return c.m.nodeName(x.T) != ""
	}
	return false
}

func (c *printerClient) stdEncoding(st *ai.State, call *ai.Call) bool {
	// The receiver is loaded from the package variable base64.StdEncoding.
	if ld, ok := call.Common.Args[0].(*ssa.UnOp); ok {
		if g, ok := ld.X.(*ssa.Global); ok {
			return g.Pkg.Pkg.Path() == "encoding/base64" && g.Name() == "StdEncoding"
		}
	}
	return false
}

// results are the results of a call of the printing function: errors are nil, which is checked
// when that function is analysed.
func (c *printerClient) resultsOf(st *ai.State, fn *ssa.Function) ai.Value {
	res := fn.Signature.Results()
	var out []ai.Value
	for i := 0; i < res.Len(); i++ {
		if types.Identical(res.At(i).Type(), types.Universe.Lookup("error").Type()) {
			out = append(out, ai.Nil{})
			continue
		}
		out = append(out, st.Unknown(res.At(i).Type(), "result of "+fn.Name()))
	}
	if len(out) == 1 {
		return out[0]
	}
	return ai.TupleV{V: out}
}

// captured is the call of the printing function in Print.
func (c *printerClient) captured(st *ai.State, call *ai.Call, arg int) ai.Value {
	key := ""
	if st.Ghost["printed"] != nil {
		c.r.Violation("printed-twice", "%s: Print prints the tree twice", st.Where())
		st.Infeasible()
	}
	_ = key
	for id := 1; id < st.Objects(); id++ {
		o := st.Object(ai.ObjID(id))
		if o == nil || o.Kind != ai.Cell || o.Input || o.T == nil {
			continue
		}
		st.UpdateObj(ai.ObjID(id), func(o *ai.Obj) {
			o.Label = "entry"
		})
	}
	c.calls = append(c.calls, capturedCall{fn: call.Fn, st: st.Copy(), args: append([]ai.Value(nil), call.Args...), arg: arg})
	// What it wrote is a symbol per builder.
	for id := 1; id < st.Objects(); id++ {
		o := st.Object(ai.ObjID(id))
		if o == nil || o.Kind != ai.Cell || o.Label != "entry" {
			continue
		}
		v := mapBuilders(o.V, o.T, ai.TypeKey(o.T), func(label string, old ai.Value) ai.Value {
			if s, ok := old.(ai.Str); ok {
				if t, ok := s.Const(); !ok || t != "" {
					c.r.Violation("text-before", "%s: text is written before the tree is printed", st.Where())
				}
			}
			return ai.SymStr(st.NewSym(ai.SymInfo{T: types.Typ[types.String], Label: "printed:" + label}))
		})
		st.UpdateObj(ai.ObjID(id), func(o *ai.Obj) { o.V = v })
	}
	c.havoc(st)
	st.Ghost["printed"] = ai.Tag{S: "yes"}
	return c.resultsOf(st, call.Fn)
}

// mapBuilders rewrites the builders in a value of a type.
func mapBuilders(v ai.Value, t types.Type, label string, f func(label string, old ai.Value) ai.Value) ai.Value {
	if isBuilder(t) {
		return f(label, v)
	}
	s, ok := v.(ai.StructV)
	str, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return v
	}
	out := ai.StructV{F: append([]ai.Value(nil), s.F...)}
	for i := range out.F {
		out.F[i] = mapBuilders(s.F[i], str.Field(i).Type(), label+"."+str.Field(i).Name(), f)
	}
	return out
}

// havoc makes the state of the printer that the printing function may change unknown.
func (c *printerClient) havoc(st *ai.State) {
	for id := 1; id < st.Objects(); id++ {
		o := st.Object(ai.ObjID(id))
		if o == nil || o.Kind != ai.Cell || o.Label != "entry" {
			continue
		}
		tk := ai.TypeKey(o.T)
		var keys []string
		for k := range c.mods {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			m := c.mods[k]
			if m.typ != tk {
				continue
			}
			nv := st.Unknown(m.t, "earlier "+k)
			st.UpdateObj(ai.ObjID(id), func(o *ai.Obj) { o.V = setPath(o.V, m.path, nv) })
		}
	}
}

func setPath(v ai.Value, path []int, nv ai.Value) ai.Value {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(ai.StructV)
	if !ok {
		return v
	}
	out := ai.StructV{F: append([]ai.Value(nil), s.F...)}
	out.F[path[0]] = setPath(s.F[path[0]], path[1:], nv)
	return out
}

// Store records which parts of the printer's state change while a node is printed.
func (c *printerClient) Store(st *ai.State, p ai.Ptr, v ai.Value) {
	if c.phase != 2 {
		return
	}
	o := st.Object(p.Obj)
	if o.Input && o.Kind == ai.Cell && c.m.nodeName(types.NewPointer(o.T)) != "" {
		if c.prop == "C04" {
			c.r.Violation("writes-tree:"+c.name, "%s: printing changes the tree", st.Where())
		}
		return
	}
	if o.Kind != ai.Cell || o.Label != "entry" {
		return
	}
	t := o.T
	var path []int
	names := ai.TypeName(o.T)
	for _, s := range p.Path {
		if s.Elem {
			return
		}
		if isBuilder(t) {
			return
		}
		str, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		path = append(path, s.Field)
		names += "." + str.Field(s.Field).Name()
		t = str.Field(s.Field).Type()
	}
	if isBuilder(t) {
		return
	}
	if c.mods[names].path == nil && c.mods[names].t == nil {
		c.mods[names] = modPath{typ: ai.TypeKey(o.T), path: path, t: t}
		c.newMod = true
	}
}

// write is a write to a text builder.
func (c *printerClient) write(st *ai.State, p ai.Ptr, content ai.Value, s ai.Str) ai.Value {
	tag, ok := content.(ai.Tag)
	if !ok {
		switch old := content.(type) {
		case ai.Str:
			return ai.Concat(st.ResStr(old), st.ResStr(s))
		case ai.StructV:
			return st.ResStr(s)
		}
		st.Undecided("content of a text builder: %T", content)
	}
	if tag.S == outTag {
		c.onOutput(st, s)
	} else {
		c.onOther(st, s)
	}
	return content
}

// builderCall models the text builders of the standard library.
func builderCall(st *ai.State, call *ai.Call, write func(st *ai.State, p ai.Ptr, content ai.Value, s ai.Str) ai.Value) (ai.Value, bool) {
	name := call.Name
	args := call.Args
	var recv ai.Value
	var s ai.Value
	switch {
	case strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(*bytes.Buffer)."):
		recv = args[0]
		if len(args) > 1 {
			s = args[1]
		}
		name = name[strings.LastIndexByte(name, '.')+1:]
	case name == "io.WriteString" || name == "fmt.Fprint" || name == "fmt.Fprintf" || name == "fmt.Fprintln":
		w, ok := st.Resolve(args[0]).(ai.Iface)
		if !ok {
			return nil, false
		}
		pt, ok := w.T.(*types.Pointer)
		if !ok || !isBuilder(pt.Elem()) {
			return nil, false
		}
		recv = w.V
		switch name {
		case "io.WriteString":
			name, s = "WriteString", args[1]
		case "fmt.Fprintf":
			f, ok := st.Resolve(args[1]).(ai.Str)
			if !ok {
				return nil, false
			}
			fs, ok := f.Const()
			if !ok {
				return nil, false
			}
			v, ok := st.Format(fs, args[2])
			if !ok {
				return nil, false
			}
			name, s = "Fprintf", v
		default:
			segs, ok := st.SegsOf(args[1])
			if !ok {
				return nil, false
			}
			var parts []ai.Str
			for _, g := range segs {
				iv, ok := st.Resolve(g.Elem).(ai.Iface)
				if !g.IsElem() || !ok {
					return nil, false
				}
				str, ok := st.Resolve(iv.V).(ai.Str)
				if !ok || len(segs) > 1 {
					return nil, false
				}
				parts = append(parts, str)
			}
			if name == "fmt.Fprintln" {
				parts = append(parts, ai.Lit("\n"))
			}
			name, s = "Fprintf", ai.Concat(parts...)
		}
	default:
		return nil, false
	}
	p := st.Deref(recv, nil)
	content := st.LoadPtr(p, nil)
	text := func() ai.Str {
		switch x := st.Resolve(s).(type) {
		case ai.Str:
			return x
		case ai.Nil:
			return ai.Str{}
		case ai.Int:
			x = st.ResInt(x)
			if x.IsConst() {
				if name == "WriteByte" {
					return ai.Lit(string([]byte{byte(x.Off)}))
				}
				return ai.Lit(string(rune(x.Off)))
			}
			return ai.SymStr(st.NewDef(types.Typ[types.String], "runestr", x))
		case ai.SliceV:
			return ai.SymStr(st.NewSym(ai.SymInfo{T: types.Typ[types.String], Label: "bytes"}))
		}
		return ai.SymStr(st.NewSym(ai.SymInfo{T: types.Typ[types.String], Label: "text"}))
	}
	count := func() ai.Value { return ai.Top{} }
	switch name {
	case "WriteString", "Write", "WriteRune", "Fprintf":
		st.StorePtr(p, write(st, p, content, text()))
		return ai.TupleV{V: []ai.Value{count(), ai.Nil{}}}, true
	case "WriteByte":
		st.StorePtr(p, write(st, p, content, text()))
		return ai.Nil{}, true
	case "String", "Bytes":
		switch x := content.(type) {
		case ai.Str:
			return x, true
		case ai.StructV:
			return ai.Str{}, true
		}
		return ai.Top{}, true
	case "Len":
		switch x := content.(type) {
		case ai.Str:
			return st.StrLen(x), true
		case ai.StructV:
			return ai.K(0), true
		}
		return ai.Top{}, true
	case "Grow":
		return nil, true
	case "Cap":
		return ai.Top{}, true
	case "Reset":
		if _, ok := content.(ai.Tag); ok {
			st.Undecided("the output is reset")
		}
		st.StorePtr(p, ai.Str{})
		return nil, true
	}
	return nil, false
}

// ---- phase 2

func (c *printerClient) nested(st *ai.State, call *ai.Call, v ai.Value) ai.Value {
	if st.DecideNil(v) {
		c.em.fail(st, "nil:"+c.name, "the printing function is called for a part that is nil, for which it fails")
	}
	c.called[ai.TypeKey(call.Fn.Signature)+call.Fn.String()] = true
	c.extra(call.Fn)
	if c.prop == "C04" {
		c.em.child(st, v)
	}
	c.mapped(st)
	c.havoc(st)
	return c.resultsOf(st, call.Fn)
}

var extraFns map[*ssa.Function]bool

func (c *printerClient) extra(fn *ssa.Function) { extraFns[fn] = true }

func (c *printerClient) onOutput(st *ai.State, s ai.Str) {
	if c.prop == "C04" {
		c.em.text(st, s)
	}
	c.mapped(st)
}

func (c *printerClient) key(k string) string { return c.fn.Name() + ":" + c.name + ":" + k }

func (c *printerClient) fail(st *ai.State, k, format string, args ...interface{}) {
	st.M.Report(c.key(k), "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
	st.Infeasible()
}

func (c *printerClient) onOther(st *ai.State, s ai.Str) {
	for _, p := range st.ResStr(s).P {
		if p.Sym == 0 {
			if strings.Trim(p.Lit, ",;ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/") != "" && c.prop == "C23" {
				c.fail(st, "mapping-text", "%q is written into the mappings", p.Lit)
			}
			continue
		}
		d := st.Info(p.Sym).Def
		if d == nil && st.Info(p.Sym).Label == "vlq" {
			d = &ai.Term{Op: "vlq", Args: []ai.Value{ai.Top{}}}
		}
		if d == nil || d.Op != "vlq" {
			if c.prop == "C23" {
				c.fail(st, "mapping-text", "%s is written into the mappings", st.DescribeSym(p.Sym))
			}
			continue
		}
		if c.prop != "C25" {
			continue
		}
		if st.Ghost["text"] != nil {
			c.fail(st, "mapping-late", "a mapping is made after text of the node has been written")
		}
		n := 0
		if t, ok := st.Ghost["vlq"].(ai.Tag); ok {
			n = atoi(t.S)
		}
		if n >= 4 {
			c.fail(st, "mapping-twice", "more than one mapping is made for a node")
		}
		st.Ghost["vlq"] = tagN(n + 1)
		st.Ghost[fmt.Sprintf("vlq%d", n)] = ai.StructV{F: []ai.Value{d.Args[0]}}
	}
}

func (c *printerClient) lineAndCol(st *ai.State, call *ai.Call) ai.Value {
	if c.prop == "C25" {
		src := st.Resolve(st.Ghost["source"])
		if !sameNode(st, src, call.Args[0]) {
			c.fail(st, "mapping-source", "a position is looked up in another source than the one that is printed")
		}
		root := emNodeRef{c.m, c.name, rootPtr(st)}
		own := root.get(st, "Span")
		if !st.SameValue(own, call.Args[1]) {
			c.fail(st, "mapping-span", "the position that is looked up is not that of the node")
		}
	}
	if s, ok := call.Args[0].(ai.SymV); ok && st.DecideNil(s) {
		st.Raise("nil pointer dereference")
	}
	arg := call.Args[1]
	l := st.NewDef(types.Typ[types.Int32], "line", arg)
	k := st.NewDef(types.Typ[types.Int32], "column", arg)
	return ai.TupleV{V: []ai.Value{ai.Int{Base: l}, ai.Int{Base: k}}}
}

func rootPtr(st *ai.State) ai.Ptr {
	iv := st.Resolve(st.Ghost["root"]).(ai.Iface)
	switch p := st.Resolve(iv.V).(type) {
	case ai.Ptr:
		return p
	case ai.SymV:
		return ai.Ptr{Obj: st.Materialise(p.S)}
	}
	return ai.Ptr{}
}

func (c *printerClient) LoopBack(st *ai.State, head *ssa.BasicBlock) {
	if c.phase == 2 && c.prop == "C04" {
		c.em.scan(st, emNodeRef{c.m, c.name, rootPtr(st)})
	}
}

func (c *printerClient) LoopHead(st *ai.State, head *ssa.BasicBlock) {
	st.ForgetElements(func(list ai.ObjID, idx ai.Int) bool { return c.em.keepElement(st, list, idx) })
}

func (c *printerClient) Exit(st *ai.State) {
	if c.phase == 2 && c.prop == "C04" {
		c.em.scan(st, emNodeRef{c.m, c.name, rootPtr(st)})
	}
	if st.Sum != st.M.Top {
		return
	}
	if c.phase == 1 {
		c.exitPrint(st)
		return
	}
	if v := st.Panic(); v != nil {
		if c.prop == "C04" {
			msg, ok := ai.RuntimePanic(v)
			if !ok {
				msg = "it panics"
			}
			c.fail(st, "panics", "printing a %s fails: %s", c.name, msg)
		}
		return
	}
	// An error result must be nil.
	res := st.Result()
	if c.prop == "C04" {
		vs := []ai.Value{res}
		if t, ok := res.(ai.TupleV); ok {
			vs = t.V
		}
		for i, v := range vs {
			if i < c.fn.Signature.Results().Len() && types.Identical(c.fn.Signature.Results().At(i).Type(), types.Universe.Lookup("error").Type()) && !st.DecideNil(v) {
				c.fail(st, "error", "printing a %s reports an error", c.name)
			}
		}
		c.em.finish(st)
		return
	}
	c.mapped(st)
}

// mapped checks the mapping of a node, when text of the node is about to be written.
func (c *printerClient) mapped(st *ai.State) {
	if c.prop != "C25" || st.Ghost["text"] != nil {
		return
	}
	st.Ghost["text"] = ai.Tag{S: "yes"}
	rule := c.name == "QualifiedRule" || c.name == "AtRule"
	n := 0
	if t, ok := st.Ghost["vlq"].(ai.Tag); ok {
		n = atoi(t.S)
	}
	nilSource := st.DecideNil(st.Ghost["source"])
	switch {
	case nilSource && n > 0:
		c.fail(st, "mapping-without-source", "a mapping is made although there is no source")
	case !rule && n > 0:
		c.fail(st, "mapping-extra", "a mapping is made for a %s, which is no rule", c.name)
	case rule && !nilSource && n == 0:
		c.fail(st, "mapping-missing", "no mapping is made for a %s", c.name)
	case rule && !nilSource && n != 4:
		c.fail(st, "mapping-fields", "a mapping has %d fields instead of 4", n)
	}
	if n != 4 {
		return
	}
	// generated column, source, line, column
	field := func(i int) ai.Value {
		k := fmt.Sprintf("vlq%d", i)
		v := st.Ghost[k].(ai.StructV).F[0]
		delete(st.Ghost, k)
		return v
	}
	if v, ok := field(1).(ai.Int); !ok || st.ResInt(v) != ai.K(0) {
		c.fail(st, "mapping-source-index", "the second field of a mapping is not the index of the only source")
	}
	c.delta(st, "line", field(2))
	c.delta(st, "column", field(3))
	delete(st.Ghost, "vlq0")
}

// delta checks that a field of a mapping is the zero-based line or column, less the value that
// the last mapping had, and that the value is kept for the next one.
func (c *printerClient) delta(st *ai.State, what string, v ai.Value) {
	i, ok := v.(ai.Int)
	if !ok || i.Base == 0 {
		c.fail(st, "mapping-"+what, "the %s of a mapping does not depend on the position of the node", what)
	}
	d := st.Info(i.Base).Def
	if d == nil || d.Op != "-" || i.Off != 0 {
		c.fail(st, "mapping-"+what, "the %s of a mapping is not relative to the last mapping: %s", what, st.Describe(v))
	}
	cur, _ := d.Args[0].(ai.Int)
	last, _ := d.Args[1].(ai.Int)
	if cur.Base == 0 || st.Info(cur.Base).Def == nil || st.Info(cur.Base).Def.Op != what || cur.Off != -1 {
		c.fail(st, "mapping-"+what, "the %s of a mapping is not the zero-based %s of the node: %s", what, what, st.Describe(d.Args[0]))
	}
	if last.Base == 0 || last.Off != 0 || !strings.HasPrefix(st.Info(last.Base).Label, "earlier ") {
		c.fail(st, "mapping-"+what, "the %s of a mapping is not relative to the last mapping: %s", what, st.Describe(v))
	}
	m := c.mods[strings.TrimPrefix(st.Info(last.Base).Label, "earlier ")]
	if dot := st.Info(last.Base).Label; m.t == nil {
		// a part of a field
		for k, x := range c.mods {
			if strings.HasPrefix(dot, "earlier "+k+".") {
				m = x
				rest := strings.Split(strings.TrimPrefix(dot, "earlier "+k+"."), ".")
				t := m.t
				for _, f := range rest {
					str := t.Underlying().(*types.Struct)
					for i := 0; i < str.NumFields(); i++ {
						if str.Field(i).Name() == f {
							m.path = append(append([]int(nil), m.path...), i)
							t = str.Field(i).Type()
							break
						}
					}
				}
			}
		}
	}
	found := false
	for id := 1; id < st.Objects(); id++ {
		o := st.Object(ai.ObjID(id))
		if o == nil || o.Kind != ai.Cell || o.Label != "entry" || ai.TypeKey(o.T) != m.typ {
			continue
		}
		v := o.V
		for _, f := range m.path {
			s, ok := v.(ai.StructV)
			if !ok {
				return
			}
			v = s.F[f]
		}
		found = true
		if !st.SameValue(v, cur) {
			c.fail(st, "mapping-"+what+"-kept", "the %s that the next mapping is relative to is not that of this mapping: %s", what, st.Describe(v))
		}
	}
	if !found {
		st.Undecided("where the last mapping is kept")
	}
}

// ---- phase 1

func (c *printerClient) exitPrint(st *ai.State) {
	if v := st.Panic(); v != nil {
		msg, ok := ai.RuntimePanic(v)
		if ok && c.prop == "C04" {
			c.r.Violation("print-panics", "%s: Print fails: %s (path: %s)", st.Where(), msg, st.Path())
		}
		return
	}
	t, ok := st.Result().(ai.TupleV)
	if !ok || len(t.V) != 2 {
		st.Undecided("results of Print")
	}
	if !st.DecideNil(t.V[1]) {
		return
	}
	src := ai.Unknown
	if st.DecideNil(st.Ghost["source"]) {
		src = ai.Yes
	} else {
		src = ai.No
	}
	c.results = append(c.results, printResult{text: st.Resolve(t.V[0]), source: src, st: st.Copy(), printed: st.Ghost["printed"] != nil})
}

func checkPrinter(p *Program, r *Report, prop string) {
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return
	}
	c := &printerClient{astClient: astClient{m}, r: r, em: newEmitter(m), sccs: recursiveFuncs(p), prop: prop, mods: map[string]modPath{}, called: map[string]bool{}}
	extraFns = map[*ssa.Function]bool{}
	print := p.Func("internal/printer", "Print")
	if print == nil || len(print.Params) != 2 {
		r.Violation("anchor", "printer.Print is gone")
		return
	}
	opts, ok := print.Params[1].Type().Underlying().(*types.Struct)
	if !ok {
		r.Violation("anchor", "printer.Options is not a struct")
		return
	}
	steps, states := 0, 0
	run := func(fn *ssa.Function, base *ai.State, build func(mach *ai.Machine) (*ai.State, []ai.Value)) *ai.Machine {
		mach := ai.NewMachine(p.Prog, c)
		mach.InRepo = inRepo
		mach.PosOf = p.Pos
		mach.Debug = verbose
		st, args := build(mach)
		mach.Start(fn, st, args, nil)
		steps += mach.Steps
		states += len(mach.Nodes)
		for _, f := range mach.Findings {
			r.Violation(f.Key, "%s", f.Msg)
		}
		for _, t := range mach.Trouble {
			r.Violation("undecided:"+t, "%s", t)
		}
		return mach
	}
	// Phase 1.
	phase1 := func() {
		c.phase = 1
		c.calls, c.results = nil, nil
		run(print, nil, func(mach *ai.Machine) (*ai.State, []ai.Value) {
			st := mach.NewState()
			in := ai.SymV{S: st.NewSym(ai.SymInfo{T: print.Params[0].Type(), Nil: ai.No, Label: "tree"})}
			o := ai.StructV{}
			for i := 0; i < opts.NumFields(); i++ {
				v := st.Unknown(opts.Field(i).Type(), "Options."+opts.Field(i).Name())
				if opts.Field(i).Name() == "OriginalSource" {
					st.Ghost["source"] = v
				}
				o.F = append(o.F, v)
			}
			if st.Ghost["source"] == nil {
				r.Violation("anchor", "printer.Options.OriginalSource is gone")
				st.Ghost["source"] = ai.Nil{}
			}
			return st, []ai.Value{in, o}
		})
	}
	phase1()
	outs := map[string]bool{}
	for _, x := range c.results {
		if s, ok := x.text.(ai.Str); ok && len(s.P) > 0 && s.P[0].Sym != 0 {
			if l := x.st.Info(s.P[0].Sym).Label; strings.HasPrefix(l, "printed:") {
				outs[l[len("printed:"):]] = true
			}
		}
	}
	if len(c.calls) == 0 || len(outs) != 1 {
		r.Violation("anchor", "cannot tell which function prints a node, and where to (%d calls, %d outputs)", len(c.calls), len(outs))
		return
	}
	// Phase 2.
	kinds := 0
	type job struct {
		fn *ssa.Function
		i  int
	}
	done := map[job]bool{}
	var phase2 func(fn *ssa.Function)
	phase2 = func(fn *ssa.Function) {
		for ci, cc := range c.calls {
			arg := cc.arg
			if fn != cc.fn {
				arg = -1
				for i, q := range fn.Params {
					if _, ok := q.Type().Underlying().(*types.Interface); ok && m.isNodeType(q.Type()) {
						arg = i
					}
				}
				if !types.Identical(fn.Params[0].Type(), cc.fn.Params[0].Type()) || len(fn.Params) != len(cc.fn.Params) || arg != cc.arg {
					r.Violation("undecided:"+fn.Name(), "%s also prints nodes, but takes other arguments than %s", fn, cc.fn)
					continue
				}
			}
			for _, t := range m.candidates(fn.Params[arg].Type()) {
				c.fn, c.name = fn, m.nodeName(t)
				c.em.key = fn.Name()
				kinds++
				mach := run(fn, nil, func(mach *ai.Machine) (*ai.State, []ai.Value) {
					st := cc.st.Copy()
					st.M = mach
					args := append([]ai.Value(nil), cc.args...)
					root := ai.SymV{S: st.NewSym(ai.SymInfo{T: fn.Params[arg].Type(), Nil: ai.No, Label: c.name})}
					st.SetDyn(root.S, t)
					args[arg] = root
					for id := 1; id < st.Objects(); id++ {
						o := st.Object(ai.ObjID(id))
						if o == nil || o.Label != "entry" {
							continue
						}
						v := mapBuilders(o.V, o.T, ai.TypeKey(o.T), func(label string, _ ai.Value) ai.Value {
							if outs[label] {
								return ai.Tag{S: outTag}
							}
							return ai.Tag{S: otherTag}
						})
						st.UpdateObj(ai.ObjID(id), func(o *ai.Obj) { o.V = v })
					}
					c.havoc(st)
					st.Ghost["root"] = root
					if prop == "C04" {
						c.em.push(st, c.name, rootPtr(st))
					}
					return st, args
				})
				if prop == "C04" && len(mach.Top.Exits()) == 0 && len(mach.Findings) == 0 && len(mach.Trouble) == 0 {
					r.Violation(c.key("never-ends"), "printing a %s never ends", c.name)
				}
				if verbose {
					fmt.Printf("%s %s: %d steps, %d exits\n", fn.Name(), c.name, mach.Steps, len(mach.Top.Exits()))
				}
			}
			done[job{fn, ci}] = true
		}
	}
	saved := *r
	for round := 0; ; round++ {
		*r = saved
		r.findings, r.order = map[string]Finding{}, nil
		c.phase = 2
		c.newMod = false
		kinds = 0
		extraFns = map[*ssa.Function]bool{}
		fns := map[*ssa.Function]bool{}
		for _, cc := range c.calls {
			if !fns[cc.fn] {
				fns[cc.fn] = true
				phase2(cc.fn)
			}
		}
		for again := true; again; {
			again = false
			for fn := range extraFns {
				if !fns[fn] {
					fns[fn] = true
					phase2(fn)
					again = true
				}
			}
		}
		if !c.newMod || round > 6 {
			break
		}
	}
	phase1()
	c.checkPrint(r)
	for _, t := range m.named {
		_ = t
	}
	r.Require("kinds of nodes", kinds, 28)
	r.Counts["abstract states"] = states
	r.Counts["steps"] = steps
	switch prop {
	case "C04":
		r.Rule = "for every kind of node that the library allocates, every path through the printing function writes the text of the specification of that kind"
	case "C23":
		r.Rule = "the text that Print appends is a comment with a base64 encoding of a text that is JSON whatever the input"
	case "C25":
		r.Rule = "every path through the printing function for a rule makes exactly one mapping, from the position of that rule, before it writes text"
	}
	r.Explanation = "Abstract interpretation of printer.Print and of the function that prints a node, in SSA form, to a fixpoint over all paths: once with a tree that is not looked into, then once per kind of node with all fields unknown. Nested nodes are whatever the same function prints for them (induction over the tree)."
	r.Assumptions = []string{
		"trees have the shape that the parser and the transforms build: only " + strings.Join(sortedSet(nilableFields), ", ") + " may be nil",
		"text builders of the standard library append what they are given",
	}
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// checkPrint judges what Print returns.
func (c *printerClient) checkPrint(r *Report) {
	r.Require("results of Print", len(c.results), 2)
	for _, x := range c.results {
		where := "Print"
		s, ok := x.text.(ai.Str)
		if !ok || !x.printed || len(s.P) == 0 || s.P[0].Sym == 0 || !strings.HasPrefix(x.st.Info(s.P[0].Sym).Label, "printed:") {
			if c.prop == "C04" {
				r.Violation("print:result", "%s returns %s instead of the text of the tree (path: %s)", where, x.st.Describe(x.text), x.st.Path())
			}
			continue
		}
		rest := ai.Str{P: s.P[1:]}
		r.Sample("Print with source %v: text of the tree, then %s", x.source == ai.No, short(x.st.Describe(rest), 400))
		if x.source == ai.Yes {
			if len(rest.P) > 0 && (c.prop == "C04" || c.prop == "C25") {
				r.Violation("print:suffix", "%s appends %s although there is no source", where, x.st.Describe(rest))
			}
			continue
		}
		if c.prop == "C25" && len(rest.P) == 0 {
			r.Violation("print:no-map", "%s appends no source map although there is a source", where)
		}
		if c.prop == "C23" {
			c.checkMap(r, x.st, rest)
		}
	}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *printerClient) checkMap(r *Report, st *ai.State, rest ai.Str) {
	bad := func(key, format string, args ...interface{}) {
		r.Violation("map:"+key, "Print: %s (path: %s)", fmt.Sprintf(format, args...), st.Path())
	}
	if len(rest.P) == 0 {
		bad("missing", "no source map is appended although there is a source")
		return
	}
	const head = "/*# sourceMappingURL=data:application/json;base64,"
	if len(rest.P) != 3 || rest.P[0].Sym != 0 || rest.P[1].Sym == 0 || rest.P[2].Sym != 0 {
		bad("comment", "what is appended is not a comment with one encoded text: %s", st.Describe(rest))
		return
	}
	if strings.TrimSpace(rest.P[0].Lit) != head || !strings.HasPrefix(rest.P[0].Lit, "\n") && !strings.HasPrefix(rest.P[0].Lit, "/") {
		bad("comment", "the comment does not start as a source map comment does: %q", rest.P[0].Lit)
		return
	}
	if strings.TrimSpace(rest.P[2].Lit) != "*/" {
		bad("comment", "the comment does not end after the encoded text: %q", rest.P[2].Lit)
		return
	}
	d := st.Info(rest.P[1].Sym).Def
	if d == nil || d.Op != "base64" {
		bad("base64", "the text in the comment is not in standard base64: %s", st.DescribeSym(rest.P[1].Sym))
		return
	}
	payload, ok := d.Args[0].(ai.Str)
	if !ok {
		bad("payload", "what is encoded is not known")
		return
	}
	var b strings.Builder
	n := 0
	for _, p := range st.ResStr(payload).P {
		if p.Sym == 0 {
			b.WriteString(p.Lit)
			continue
		}
		i := st.Info(p.Sym)
		switch {
		case i.Def != nil && i.Def.Op == "json":
			n++
			b.WriteString(`"\u0000json` + fmt.Sprint(n) + `"`)
		case strings.HasPrefix(i.Label, "printed:"):
			b.WriteString("MAPPINGS")
		default:
			bad("raw-text", "%s is put into the source map without being encoded as JSON", st.DescribeSym(p.Sym))
			return
		}
	}
	r.Counts["texts encoded as JSON"] = n
	text := b.String()
	if !json.Valid([]byte(text)) {
		bad("invalid", "the source map is not JSON: %s", short(text, 600))
		return
	}
	var doc struct {
		Version        int
		Mappings       string
		Sources        []string
		SourcesContent []string
	}
	if err := json.Unmarshal([]byte(text), &doc); err != nil || doc.Version != 3 || doc.Mappings != "MAPPINGS" || len(doc.Sources) != 1 || len(doc.SourcesContent) > 1 {
		bad("fields", "the source map lacks the fields version 3, one source, and the mappings that were collected: %s", short(text, 600))
	}
}
