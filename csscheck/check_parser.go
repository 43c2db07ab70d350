package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C01, C02, C29 (and C03): the parser over all sequences of tokens.

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C29"} {
		id := id
		register(id, func(p *Program, r *Report) { checkParser(p, r, id) })
	}
}

// Flags of symbols and objects.
const (
	fConsumed uint32 = 1 << (8 + iota) // the literal of a token that has been consumed
	fKept                              // stored in a tree
	fText                              // a node with text
	fAttached                          // a node that is part of another one
	fTouched                           // a node that a function has changed which did not make it
)

type parserClient struct {
	astClient
	id      string
	lexT    *types.Named
	value   *types.Interface
	valueT  types.Type
	errT    types.Type
	sheetT  *types.Named
	index   map[string]int // of the fields of the lexer
	hidden  int            // the field of the lexer that the record of the token is kept in
	kinds   map[string]int64
	names   map[int64]string
	tests   map[*ssa.Function]bool // predicates on literals
	anyKind ai.IntSet
	parse   *ssa.Function
	rewind  map[*ssa.Function]bool // functions that may reset the lexer

	tokens, errors, nodes, exits, loops int
	sites                               map[string]bool
}

// The record of the current token.
const (
	rStart = iota
	rEnd
	rMode  // the setting of RetainWhitespace when it was read
	rDirty // an error was swallowed since
	rSize
)

func (c *parserClient) fail(st *ai.State, prop, key, format string, args ...interface{}) {
	if prop == c.id {
		st.M.Report(key, "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
	}
}

func (c *parserClient) isLexer(o *ai.Obj) bool {
	return o != nil && o.T != nil && types.Identical(o.T, c.lexT)
}

// isNode says whether an object is a node of the tree.
func (c *parserClient) isNode(o *ai.Obj) bool {
	if o == nil || o.Kind != ai.Cell || o.T == nil {
		return false
	}
	n, ok := o.T.(*types.Named)
	return ok && c.m.named[n.Obj().Name()] == n
}

// kindSet are the kinds that a token may have.
func (c *parserClient) kindSet(st *ai.State, cur ai.Int) map[string]bool {
	cur = st.ResInt(cur)
	out := map[string]bool{}
	for name, k := range c.kinds {
		if cur.IsConst() {
			if cur.Off == k {
				out[name] = true
			}
			continue
		}
		if set := st.Info(cur.Base).IntSetOf(); set == nil || set.Contains(k-cur.Off) {
			out[name] = true
		}
	}
	return out
}

var stringKinds = []string{"Ident", "String", "Hash", "URL", "FunctionStart", "Delim", "At", "Dimension"}
var numeralKinds = []string{"Number", "Percentage", "Dimension"}

// literal is the symbol of a literal, if it has not been recognised.
func literalSym(st *ai.State, v ai.Value) ai.Sym {
	s, ok := v.(ai.Str)
	if !ok {
		return 0
	}
	s = st.ResStr(s)
	if len(s.P) == 1 && s.P[0].Sym != 0 {
		return s.P[0].Sym
	}
	return 0
}

func (c *parserClient) next(st *ai.State, call *ai.Call) ai.Value {
	p := st.Deref(call.Args[0], nil)
	lx, ok := st.LoadPtr(p, c.lexT).(ai.StructV)
	if !ok {
		st.Undecided("state of the lexer")
	}
	rec, ok := lx.F[c.hidden].(ai.StructV)
	if !ok || len(rec.F) != rSize {
		st.Undecided("position of the lexer")
	}
	cur, ok := lx.F[c.index["Current"]].(ai.Int)
	if !ok {
		st.Undecided("current token")
	}
	if rec.F[rDirty] != ai.Value(ai.K(0)) {
		c.fail(st, "C03", "swallowed", "parsing goes on after an error without going back to where it was: the tokens before the error are lost")
	}
	if st.DecideEqual(cur, ai.K(c.kinds["EOF"])) {
		return ai.TupleV{} // It stays there.
	}
	ws, ok := lx.F[c.index["RetainWhitespace"]].(ai.Int)
	if !ok {
		st.Undecided("whitespace setting")
	}
	space := st.DecideBool(ws)
	comments := st.DecideBool(lx.F[c.index["RetainComments"]])
	bad := st.DecideTop()
	// From here on there are no more choices.
	may := c.kindSet(st, cur)
	consume := func(field string, kinds []string) {
		if c.id != "C03" {
			return
		}
		for _, k := range kinds {
			if !may[k] {
				continue
			}
			if s := literalSym(st, lx.F[c.index[field]]); s != 0 && st.Info(s).Flags&fConsumed == 0 {
				st.Update(s, func(i *ai.SymInfo) {
					i.Flags |= fConsumed
					i.Label = "the " + strings.ToLower(k) + " that is consumed at " + st.M.Pos(call.In)
				})
			}
			return
		}
	}
	consume("CurrentString", stringKinds)
	consume("CurrentNumeral", numeralKinds)
	if bad {
		c.errors++
		o := st.NewObj(&ai.Obj{Kind: ai.Cell, T: c.errT.(*types.Pointer).Elem(), V: st.Unknown(c.errT.(*types.Pointer).Elem(), "error")})
		st.RaiseValue(ai.Iface{T: c.errT, V: ai.Ptr{Obj: o}})
	}
	c.tokens++
	c.sites[st.M.Pos(call.In)] = true
	st.Progress()
	delete(st.Ghost, "=rewound")
	lx = ai.StructV{F: append([]ai.Value(nil), lx.F...)}
	c.token(st, &lx, rec.F[rStart].(ai.Int), rec.F[rEnd].(ai.Int), space, comments)
	st.UpdateObj(p.Obj, func(o *ai.Obj) { o.V = lx })
	if len(p.Path) > 0 {
		st.Undecided("a lexer within an object")
	}
	return ai.TupleV{}
}

// token puts a new token into the lexer.
func (c *parserClient) token(st *ai.State, lx *ai.StructV, start, end ai.Int, space, comments bool) {
	var set ai.IntSet
	for _, k := range c.kinds {
		switch c.names[k] {
		case "Illegal":
			continue
		case "Whitespace":
			if !space {
				continue
			}
		case "Comment":
			if !comments {
				continue
			}
		}
		set = set.Union(ai.SetOf(k))
	}
	lx.F[c.index["Current"]] = st.NewInt("token", set)
	s := st.NewInt("start", ai.Range(0, 1<<40))
	e := st.NewInt("end", ai.Range(0, 1<<40))
	lx.F[c.index["CurrentString"]] = ai.SymStr(st.NewDef(stringType, "literal", s, e))
	lx.F[c.index["CurrentNumeral"]] = ai.SymStr(st.NewDef(stringType, "numeral", s, e))
	st.AddRel(s.Base, e.Base, 0)
	if start.Base != 0 {
		st.AddRel(start.Base, s.Base, -1)
	}
	if end.Base != 0 {
		st.AddRel(end.Base, s.Base, 0)
	}
	if n := st.StrLen(st.Ghost["content"].(ai.Str)); n.Base != 0 {
		st.AddRel(e.Base, n.Base, 0)
	}
	lx.F[c.hidden] = ai.StructV{F: []ai.Value{s, e, ai.Bool(space), ai.K(0)}}
}

func (c *parserClient) record(st *ai.State, l ai.Value) ai.StructV {
	p := st.Deref(l, nil)
	lx, ok := st.LoadPtr(p, c.lexT).(ai.StructV)
	if !ok {
		st.Undecided("state of the lexer")
	}
	rec, ok := lx.F[c.hidden].(ai.StructV)
	if !ok || len(rec.F) != rSize {
		st.Undecided("position of the lexer")
	}
	return rec
}

func (c *parserClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if call.Method != nil {
		if s, ok := st.Resolve(call.Args[0]).(ai.SymV); ok && call.Method.Name() == "Location" && c.m.isNodeType(st.Info(s.S).T) {
			return st.Unknown(call.Common.Signature().Results().At(0).Type(), "span"), true
		}
		return c.astClient.Call(st, call)
	}
	switch call.Name {
	case "fmt.Errorf", "errors.New":
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No})}, true
	case "strings.EqualFold":
		for i := range call.Args {
			if t, ok := st.ResStr(call.Args[i].(ai.Str)).Const(); ok {
				s := literalSym(st, call.Args[1-i])
				if s == 0 {
					break
				}
				_ = t
				if st.DecideTop() {
					c.kept(st, s)
					return ai.Bool(true), true
				}
				return ai.Bool(false), true
			}
		}
	}
	if fn := call.Fn; fn != nil && len(fn.Params) == 1 && types.Identical(fn.Params[0].Type().Underlying(), types.Typ[types.String]) && fn.Signature.Results().Len() == 1 &&
		types.Identical(fn.Signature.Results().At(0).Type().Underlying(), types.Typ[types.Bool]) && st.M.IsPure(fn) && literalSym(st, call.Args[0]) != 0 {
		// A test of a literal. It is looked at on its own.
		c.tests[fn] = true
		if st.DecideTop() {
			c.kept(st, literalSym(st, call.Args[0]))
			return ai.Bool(true), true
		}
		return ai.Bool(false), true
	}
	if call.Fn == nil || call.Fn.Signature.Recv() == nil && !c.isFunc(call.Fn, "internal/lexer", "NewLexer") && !c.isFunc(call.Fn, "internal/logging", "") {
		return c.astClient.Call(st, call)
	}
	if c.isFunc(call.Fn, "internal/logging", "") {
		// Errors with a location.
		if res := call.Fn.Signature.Results(); res.Len() == 1 {
			v := st.Unknown(res.At(0).Type(), "error")
			if s, ok := v.(ai.SymV); ok {
				st.Update(s.S, func(i *ai.SymInfo) { i.Nil = ai.No })
			}
			return v, true
		}
	}
	if c.isFunc(call.Fn, "internal/lexer", "NewLexer") {
		lx := st.M.Zero(st, c.lexT).(ai.StructV)
		lx = ai.StructV{F: append([]ai.Value(nil), lx.F...)}
		if st.DecideTop() {
			o := st.NewObj(&ai.Obj{Kind: ai.Cell, T: c.errT.(*types.Pointer).Elem(), V: st.Unknown(c.errT.(*types.Pointer).Elem(), "error")})
			st.RaiseValue(ai.Iface{T: c.errT, V: ai.Ptr{Obj: o}})
		}
		src := st.Deref(call.Args[0], nil)
		content := ai.Str{}
		if sv, ok := st.LoadPtr(src, nil).(ai.StructV); ok {
			for i, f := range structFields(c.m.prog.Named("internal/sources", "Source")) {
				if f.Name() == "Content" {
					content, _ = sv.F[i].(ai.Str)
				}
			}
		}
		st.Ghost["content"] = content
		if n := st.StrLen(content); n.Base != 0 {
			st.Update(n.Base, func(i *ai.SymInfo) { i.Label = "size" })
		}
		c.token(st, &lx, ai.Int{}, ai.Int{}, false, false)
		l := ai.Ptr{Obj: st.NewObj(&ai.Obj{Kind: ai.Cell, T: c.lexT, V: lx})}
		st.Ghost["lexer"] = l
		return l, true
	}
	recv := call.Fn.Signature.Recv().Type()
	if types.Identical(recv, types.NewPointer(c.lexT)) {
		switch call.Fn.Name() {
		case "Next":
			return c.next(st, call), true
		case "TokenSpan":
			rec := c.record(st, call.Args[0])
			return ai.StructV{F: []ai.Value{rec.F[rStart], rec.F[rEnd]}}, true
		case "TokenEnd":
			return c.record(st, call.Args[0]).F[rEnd], true
		}
	}
	if n, ok := recv.(*types.Named); ok && n.Obj().Name() == "Token" && call.Fn.Name() == "String" {
		return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "name of a token"})), true
	}
	return c.astClient.Call(st, call)
}

// kept says that what a literal says is not lost.
func (c *parserClient) kept(st *ai.State, s ai.Sym) {
	if c.id == "C03" {
		st.Update(s, func(i *ai.SymInfo) { i.Flags |= fKept })
	}
}

func (c *parserClient) isFunc(fn *ssa.Function, pkg, name string) bool {
	pk := fnPackage(fn)
	return pk != nil && pk.Path() == modulePath+"/"+pkg && (name == "" || fn.Name() == name) && fn.Signature.Recv() == nil
}

// texts are the literals in a value.
func (c *parserClient) texts(st *ai.State, v ai.Value, f func(s ai.Sym)) {
	seen := map[ai.Sym]bool{}
	var walk func(v ai.Value, depth int)
	sym := func(s ai.Sym, depth int) {
		if s == 0 || seen[s] || depth > 10 {
			return
		}
		seen[s] = true
		f(s)
		if d := st.Info(s).Def; d != nil {
			for _, a := range d.Args {
				walk(a, depth+1)
			}
		}
	}
	walk = func(v ai.Value, depth int) {
		switch v := v.(type) {
		case ai.Str:
			for _, p := range st.ResStr(v).P {
				sym(p.Sym, depth)
			}
		case ai.StructV:
			for _, e := range v.F {
				walk(e, depth)
			}
		case ai.SliceV:
			if o := st.Object(v.Obj); o != nil {
				for _, s := range o.Segs {
					if s.IsElem() {
						if _, ok := s.Elem.(ai.Str); ok {
							walk(s.Elem, depth)
						}
					}
				}
			}
		}
	}
	walk(v, 0)
}

// children are the nodes in a value.
func (c *parserClient) children(st *ai.State, v ai.Value, f func(o ai.ObjID)) {
	switch v := st.Resolve(v).(type) {
	case ai.Ptr:
		if len(v.Path) == 0 && c.isNode(st.Object(v.Obj)) {
			f(v.Obj)
		}
	case ai.Iface:
		c.children(st, v.V, f)
	case ai.SliceV:
		if o := st.Object(v.Obj); o != nil {
			for _, s := range o.Segs {
				if s.IsElem() {
					c.children(st, s.Elem, f)
				}
			}
			for _, e := range o.Elems {
				c.children(st, e.V, f)
			}
		}
	case ai.StructV:
		// A reference from a record (an import specifier) is not a place in the tree.
	}
}

func (c *parserClient) hasText(st *ai.State, id ai.ObjID, depth int) bool {
	o := st.Object(id)
	if o == nil || depth > 20 {
		return false
	}
	if o.Flags&fText != 0 {
		return true
	}
	found := false
	if sv, ok := o.V.(ai.StructV); ok {
		for _, f := range sv.F {
			c.children(st, f, func(k ai.ObjID) { found = found || c.hasText(st, k, depth+1) })
		}
	}
	return found
}

func (c *parserClient) Store(st *ai.State, p ai.Ptr, v ai.Value) {
	o := st.Object(p.Obj)
	if c.isNode(o) && !st.Local(p.Obj) && o.Flags&fTouched == 0 {
		st.UpdateObj(p.Obj, func(o *ai.Obj) { o.Flags |= fTouched })
	}
	if c.id == "C03" && c.isNode(o) {
		c.store(st, p, v)
	}
	if q, ok := v.(ai.Ptr); ok && len(q.Path) == 0 && c.isLexer(st.Object(q.Obj)) && len(p.Path) > 0 {
		st.Ghost["lexer"] = q
	}
	if c.id == "C29" && c.isNode(o) && len(p.Path) > 0 && !p.Path[0].Elem {
		c.mode(st, o, p.Path[0].Field, len(p.Path) == 1)
	}
	if c.id == "C01" {
		c.goesBack(st, p, v)
	}
}

// goesBack notes that an earlier state of the lexer is taken up again.
func (c *parserClient) goesBack(st *ai.State, p ai.Ptr, v ai.Value) {
	var saved ai.Value
	if c.isLexer(st.Object(p.Obj)) && len(p.Path) == 0 && c.current(st, p.Obj) {
		saved = v
	} else if q, ok := v.(ai.Ptr); ok && len(q.Path) == 0 && c.isLexer(st.Object(q.Obj)) && len(p.Path) > 0 && !c.isLexer(st.Object(p.Obj)) && st.Fn != c.parse {
		saved = st.Object(q.Obj).V
	}
	lx, ok := saved.(ai.StructV)
	if !ok {
		return
	}
	st.Ghost["=rewound"] = ai.K(1)
	if rec, ok := lx.F[c.hidden].(ai.StructV); ok && len(rec.F) == rSize && rec.F[rDirty] == ai.Value(ai.K(2)) {
		st.Ghost["=stale"] = ai.K(1)
	}
}

// The nodes that are made with whitespace tokens off, and on.
var spaceOff = map[string]bool{"QualifiedRule": true, "Declaration": true, "DeclarationBlock": true, "QualifiedRuleBlock": true, "AtRule": true,
	"MediaQuery": true, "MediaQueryList": true, "MediaFeaturePlain": true, "MediaFeatureRange": true, "KeyframeSelectorList": true, "Dimension": true,
	"HexColor": true, "String": true, "Function": true, "Comma": true, "Brackets": true, "MathExpression": true, "MathParenthesizedExpression": true,
	"Raw": true, "Percentage": true, "AttributeSelector": true, "ANPlusB": true}
var spaceOn = map[string]bool{"Whitespace": true, "TypeSelector": true, "ClassSelector": true, "IDSelector": true, "PseudoClassSelector": true,
	"PseudoElementSelector": true, "CombinatorSelector": true}

// mode checks the setting of whitespace when a node is made.
func (c *parserClient) mode(st *ai.State, o *ai.Obj, field int, whole bool) {
	name := typeName(o.T)
	l, ok := st.Ghost["lexer"].(ai.Ptr)
	if !ok {
		return
	}
	if name == "Selector" && st.Ghost["=sel"] != nil && whole {
		if f := structFields(o.T.(*types.Named))[field]; typeName(f.Type()) == "Span" {
			delete(st.Ghost, "=sel")
		}
	}
	if !spaceOff[name] && !spaceOn[name] {
		return
	}
	f := structFields(o.T.(*types.Named))[field]
	span := typeName(f.Type()) == "Span"
	if span && (!whole || name != "Whitespace" && name != "Comma") {
		return // Its end may be set later.
	}
	if spaceOn[name] && !span {
		if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return
		}
	}
	lx, ok := st.Object(l.Obj).V.(ai.StructV)
	if !ok {
		st.Undecided("state of the lexer")
	}
	is := func(v ai.Value) int64 {
		if i, ok := v.(ai.Int); ok && st.ResInt(i).IsConst() {
			return st.ResInt(i).Off
		}
		return -1
	}
	c.nodes++
	rec := lx.F[c.hidden].(ai.StructV)
	setting, read := is(lx.F[c.index["RetainWhitespace"]]), is(rec.F[rMode])
	switch {
	case spaceOff[name] && setting != 0:
		c.fail(st, "C29", "on:"+name, "whitespace tokens are on while a %s is made", name)
	case spaceOn[name] && setting != 1:
		c.fail(st, "C29", "off:"+name, "whitespace tokens are off while a %s is made: a descendant combinator after it is lost", name)
	case spaceOn[name] && read != 1 && st.Ghost["=sel"] != nil:
		c.fail(st, "C29", "late:"+name, "a %s is made in the middle of a selector from a token that was read with whitespace tokens off: a descendant combinator before it is lost", name)
	}
	if spaceOn[name] {
		st.Ghost["=sel"] = ai.K(1)
	}
}

func (c *parserClient) store(st *ai.State, p ai.Ptr, v ai.Value) {
	// What was there is gone.
	var old ai.Value
	if o := st.Object(p.Obj); o != nil {
		old = o.V
		for _, s := range p.Path {
			sv, ok := old.(ai.StructV)
			if !ok || s.Elem || s.Field >= len(sv.F) {
				old = nil
				break
			}
			old = sv.F[s.Field]
		}
	}
	each := func(v ai.Value, node func(ai.ObjID), text func(ai.Sym)) {
		if sv, ok := v.(ai.StructV); ok && len(p.Path) == 0 {
			for _, f := range sv.F {
				c.children(st, f, node)
				c.texts(st, f, text)
			}
			return
		}
		c.children(st, v, node)
		c.texts(st, v, text)
	}
	if old != nil {
		each(old, func(k ai.ObjID) { st.UpdateObj(k, func(o *ai.Obj) { o.Flags &^= fAttached }) }, func(s ai.Sym) {
			if st.Info(s).Flags&fKept != 0 {
				st.Update(s, func(i *ai.SymInfo) { i.Flags &^= fKept })
			}
		})
	}
	text := false
	each(v, func(k ai.ObjID) {
		text = text || c.hasText(st, k, 0)
		st.UpdateObj(k, func(o *ai.Obj) { o.Flags |= fAttached })
	}, func(s ai.Sym) {
		text = true
		if st.Info(s).Flags&fKept == 0 {
			st.Update(s, func(i *ai.SymInfo) { i.Flags |= fKept })
		}
		if d := st.Info(s).Def; d != nil && d.Op == "source" {
			c.covered(st, d.Args[0].(ai.Int), d.Args[1].(ai.Int))
		}
	})
	c.moved(st, v)
	if text && st.Object(p.Obj).Flags&fText == 0 {
		st.UpdateObj(p.Obj, func(o *ai.Obj) { o.Flags |= fText })
	}
}

// moved looks for nodes all of whose children are now in another one: they may be dropped.
func (c *parserClient) moved(st *ai.State, v ai.Value) {
	any := false
	var keep func(v ai.Value)
	keep = func(v ai.Value) {
		switch v := st.Resolve(v).(type) {
		case ai.SymV:
			if i := st.Info(v.S); c.m.isNodeType(i.T) {
				any = true
				if i.Flags&fKept == 0 {
					st.Update(v.S, func(i *ai.SymInfo) { i.Flags |= fKept })
				}
			}
		case ai.Ptr:
			any = any || c.isNode(st.Object(v.Obj))
		case ai.Iface:
			keep(v.V)
		case ai.SliceV:
			if o := st.Object(v.Obj); o != nil {
				for _, s := range o.Segs {
					if s.IsElem() {
						keep(s.Elem)
					}
				}
			}
		}
	}
	keep(v)
	if !any {
		return
	}
	for o, n := ai.ObjID(1), st.Objs(); int(o) < n; o++ {
		ob := st.Object(o)
		if !c.isNode(ob) || ob.Input || ob.Flags&fAttached != 0 {
			continue
		}
		sv, ok := ob.V.(ai.StructV)
		all := 0
		if ok {
			for _, f := range sv.F {
				switch f := st.Resolve(f).(type) {
				case ai.Str, ai.SymV, ai.Ptr, ai.Iface:
					all = -1
				case ai.SliceV:
					l := st.Object(f.Obj)
					k := st.SliceLen(f)
					if l == nil || !k.IsConst() || int64(len(l.Elems)) != k.Off {
						all = -1
						break
					}
					for _, e := range l.Elems {
						switch x := st.Resolve(e.V).(type) {
						case ai.SymV:
							if st.Info(x.S).Flags&fKept == 0 {
								all = -1
							}
						case ai.Ptr:
							if q := st.Object(x.Obj); !c.isNode(q) || q.Flags&fAttached == 0 {
								all = -1
							}
						default:
							all = -1
						}
						if all >= 0 {
							all++
						}
					}
				}
				if all < 0 {
					break
				}
			}
		}
		if all > 0 {
			st.UpdateObj(o, func(o *ai.Obj) { o.Flags |= fAttached })
		}
	}
}

// covered says that a part of the source is in the tree as it is.
func (c *parserClient) covered(st *ai.State, lo, hi ai.Int) {
	for s := ai.Sym(1); int(s) < st.Syms(); s++ {
		if i := st.Info(s); i != nil && i.Flags&fConsumed != 0 && i.Flags&fKept == 0 && i.Def != nil && len(i.Def.Args) == 2 &&
			st.Less(lo, i.Def.Args[0].(ai.Int), true) == ai.Yes && st.Less(i.Def.Args[1].(ai.Int), hi, true) == ai.Yes {
			st.Update(s, func(i *ai.SymInfo) { i.Flags |= fKept })
		}
	}
	owed, ok := st.Ghost["owed"].(ai.StructV)
	if !ok {
		return
	}
	if st.Less(lo, owed.F[0].(ai.Int), true) == ai.Yes && st.Less(owed.F[1].(ai.Int), hi, true) == ai.Yes {
		delete(st.Ghost, "owed")
	}
}

func (c *parserClient) SliceHook(st *ai.State, s ai.Str, lo ai.Int, hi *ai.Int) (ai.Value, bool) {
	if content, ok := st.Ghost["content"].(ai.Str); ok && fmt.Sprint(st.ResStr(content)) == fmt.Sprint(s) {
		h := st.StrLen(s)
		if hi != nil {
			h = *hi
		}
		return ai.SymStr(st.NewDef(stringType, "source", lo, st.ResInt(h))), true
	}
	return nil, false
}

// Dropped looks for text that can no longer get into the tree.
func (c *parserClient) Dropped(st *ai.State, keepsObj func(ai.ObjID) bool, keepsSym func(ai.Sym) bool) bool {
	changed := c.tidy(st)
	if c.id != "C03" || st.Panic() != nil || st.Ghost["content"] == nil {
		return changed
	}
	for s := ai.Sym(1); int(s) < st.Syms(); s++ {
		i := st.Info(s)
		if i == nil || i.Flags&fConsumed == 0 || i.Flags&fKept != 0 || keepsSym(s) || i.Eq != nil || i.Is != nil {
			continue
		}
		if i.Len != nil && st.ResInt(*i.Len).IsConst() {
			continue // compared byte by byte
		}
		// It may still be covered by a part of the source that is taken over as it is.
		st.Update(s, func(i *ai.SymInfo) { i.Flags |= fKept })
		lo, hi := i.Def.Args[0].(ai.Int), i.Def.Args[1].(ai.Int)
		owed, ok := st.Ghost["owed"].(ai.StructV)
		if !ok {
			owed = ai.StructV{F: []ai.Value{lo, hi, ai.Tag{S: i.Label}}}
		} else {
			f := append([]ai.Value(nil), owed.F...)
			if st.Less(f[0].(ai.Int), lo, true) != ai.Yes {
				f[0], f[2] = lo, ai.Tag{S: i.Label}
			}
			if st.Less(hi, f[1].(ai.Int), true) != ai.Yes {
				f[1] = hi
			}
			owed = ai.StructV{F: f}
		}
		st.Ghost["owed"] = owed
		changed = true
	}
	if st.Fn == nil || fnPackage(st.Fn) != c.parse.Pkg.Pkg {
		return changed // copies of nodes that the parser has
	}
	for o, n := ai.ObjID(1), st.Objs(); int(o) < n; o++ {
		ob := st.Object(o)
		if !c.isNode(ob) || ob.Flags&fAttached != 0 || keepsObj(o) || ob.Input || !c.hasText(st, o, 0) {
			continue
		}
		if st.Ghost["lost"] == nil {
			st.Ghost["lost"] = ai.Tag{S: fmt.Sprintf("a %s that is dropped in %s", typeName(ob.T), st.Fn)}
			changed = true
		}
	}
	return changed
}

// unknown is any value of a type, as the fields of nodes may have.
func (c *parserClient) unknown(st *ai.State, t types.Type, old ai.Value) ai.Value {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		if _, ok := st.Resolve(old).(ai.Nil); ok {
			return ai.Nil{}
		}
		v := st.Unknown(t, "part")
		if s, ok := v.(ai.SymV); ok {
			st.Update(s.S, func(i *ai.SymInfo) { i.Nil = ai.No })
		}
		return v
	case *types.Slice:
		if o, ok := st.Resolve(old).(ai.SliceV); ok && c.id == "C03" && !st.SetOfInt(st.SliceLen(o)).Contains(0) {
			v := st.Unknown(t, "part")
			if n, ok := v.(ai.SliceV); ok {
				st.RefineSet(st.SliceLen(n), ai.Range(1, 1<<62))
			}
			return v
		}
	}
	return st.Unknown(t, "part")
}

// blur forgets the contents of the nodes that are known one by one.
func (c *parserClient) blur(st *ai.State) {
	for o, n := ai.ObjID(1), st.Objs(); int(o) < n; o++ {
		ob := st.Object(o)
		if !c.isNode(ob) || ob.Input || !st.Local(o) && ob.Flags&fTouched == 0 {
			continue
		}
		sv, ok := ob.V.(ai.StructV)
		if !ok {
			continue
		}
		if c.id == "C03" && c.hasText(st, o, 0) {
			st.UpdateObj(o, func(o *ai.Obj) { o.Flags |= fText })
		}
		fs := ai.StructV{F: make([]ai.Value, len(sv.F))}
		str := ob.T.Underlying().(*types.Struct)
		for i := range fs.F {
			f := str.Field(i)
			if _, isStruct := f.Type().Underlying().(*types.Struct); isStruct && typeName(ob.T) == "Raw" {
				fs.F[i] = sv.F[i] // where it starts matters
				continue
			}
			fs.F[i] = c.unknown(st, f.Type(), sv.F[i])
		}
		st.UpdateObj(o, func(o *ai.Obj) { o.V = fs })
	}
}

// Advance forgets what the literals are not.
func (c *parserClient) Advance(st *ai.State, args []ai.Value) {
	for s := ai.Sym(1); int(s) < st.Syms(); s++ {
		i := st.Info(s)
		if i != nil && i.Def != nil && (i.Def.Op == "literal" || i.Def.Op == "numeral") && i.Eq == nil && (i.Ne != nil || i.NotPre != nil) {
			st.Update(s, func(i *ai.SymInfo) { i.Ne, i.NotPre = nil, nil })
		}
	}
}

// tidy forgets what is of no use: what is written in nodes, and which tokens there were.
func (c *parserClient) tidy(st *ai.State) bool {
	changed := false
	var scalars func(v ai.Value, t types.Type) ai.Value
	scalars = func(v ai.Value, t types.Type) ai.Value {
		switch v := v.(type) {
		case ai.Str:
			if len(v.P) == 1 && v.P[0].Sym != 0 {
				if i := st.Info(v.P[0].Sym); i.Def == nil && i.Eq == nil && i.Ne == nil {
					return v
				}
			}
			changed = true
			return st.Unknown(t, "part")
		case ai.Int:
			if v.Base != 0 && strings.HasPrefix(st.Info(v.Base).Label, "part") {
				return v
			}
			changed = true
			return st.Unknown(t, "part")
		case ai.StructV:
			str, ok := t.Underlying().(*types.Struct)
			if !ok {
				return v
			}
			f := append([]ai.Value(nil), v.F...)
			for i := range f {
				f[i] = scalars(f[i], str.Field(i).Type())
			}
			return ai.StructV{F: f}
		}
		return v
	}
	for o, n := ai.ObjID(1), st.Objs(); int(o) < n; o++ {
		ob := st.Object(o)
		if !c.isNode(ob) || ob.Input || typeName(ob.T) == "Raw" {
			continue
		}
		if c.id == "C03" && ob.Flags&fText == 0 && c.hasText(st, o, 0) {
			st.UpdateObj(o, func(o *ai.Obj) { o.Flags |= fText })
		}
		was := changed
		changed = false
		if v := scalars(ob.V, ob.T); changed {
			st.UpdateObj(o, func(o *ai.Obj) { o.V = v })
		}
		changed = changed || was
	}
	// What is in the stylesheet is not looked at again.
	for o, n := ai.ObjID(1), st.Objs(); int(o) < n; o++ {
		ob := st.Object(o)
		if ob == nil || ob.Kind != ai.Cell || ob.T == nil || !types.Identical(ob.T, c.sheetT) || ob.Input {
			continue
		}
		sv, ok := ob.V.(ai.StructV)
		if !ok {
			continue
		}
		fs := append([]ai.Value(nil), sv.F...)
		differs := ob.Flags&fTouched == 0
		for i, f := range structFields(c.sheetT) {
			if _, ok := f.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			if l, ok := fs[i].(ai.SliceV); ok && st.Object(l.Obj).Input {
				continue
			}
			if c.id == "C03" {
				c.children(st, fs[i], func(k ai.ObjID) { st.UpdateObj(k, func(o *ai.Obj) { o.Flags |= fAttached }) })
			}
			fs[i] = st.Unknown(f.Type(), "part")
			differs = true
		}
		if differs {
			changed = true
			st.UpdateObj(o, func(o *ai.Obj) { o.V, o.Flags = ai.StructV{F: fs}, o.Flags|fTouched })
		}
	}
	now := map[ai.Sym]bool{}
	if p, ok := st.Ghost["lexer"].(ai.Ptr); ok {
		if sv, ok := st.Object(p.Obj).V.(ai.StructV); ok {
			if k, ok := sv.F[c.index["Current"]].(ai.Int); ok {
				now[k.Base] = true
			}
			for _, f := range []string{"CurrentString", "CurrentNumeral"} {
				if s, ok := sv.F[c.index[f]].(ai.Str); ok && len(s.P) == 1 {
					now[s.P[0].Sym] = true
				}
			}
		}
	}
	for s := ai.Sym(1); int(s) < st.Syms(); s++ {
		i := st.Info(s)
		if i == nil || now[s] || i.Is != nil {
			continue
		}
		e := st.EntryInfo(s)
		switch {
		case i.Label == "token":
			set := c.anyKind
			if e != nil {
				set = e.Set
			}
			if fmt.Sprint(i.Set) != fmt.Sprint(set) {
				st.Update(s, func(i *ai.SymInfo) { i.Set = set })
				changed = true
			}
		case c.id != "C03" && i.Def != nil && (i.Def.Op == "literal" || i.Def.Op == "numeral"):
			if i.Eq == nil && i.Ne == nil && i.NotPre == nil && i.Len == nil {
				continue
			}
			if e != nil && e.Eq == i.Eq && fmt.Sprint(e.Ne) == fmt.Sprint(i.Ne) {
				continue
			}
			st.Update(s, func(i *ai.SymInfo) {
				i.Eq, i.Ne, i.NotPre, i.Len = nil, nil, nil, nil
				if e != nil {
					i.Eq, i.Ne, i.NotPre, i.Len = e.Eq, e.Ne, e.NotPre, e.Len
				}
			})
			changed = true
		}
	}
	return changed
}

func position(st *ai.State, s ai.Sym) bool {
	i := st.Info(s)
	return i != nil && (i.Label == "start" || i.Label == "end" || i.Label == "size")
}

// Clip keeps the order of positions only.
func (c *parserClient) Clip(st *ai.State) {
	rs := append([]ai.Rel(nil), st.Rels()...)
	out := rs[:0]
	for _, r := range rs {
		if c.id == "C01" || c.id == "C29" || r.C > 0 || !position(st, r.A) || !position(st, r.B) {
			continue
		}
		if r.C < -1 {
			r.C = -1
		}
		out = append(out, r)
	}
	st.SetRels(out)
	// How many tokens there were does not matter.
	for s := ai.Sym(1); int(s) < st.Syms(); s++ {
		if i := st.Info(s); i != nil && i.Set != nil && (i.Label == "start" || i.Label == "end" || i.Label == "size") {
			if all := ai.Range(0, 1<<40); fmt.Sprint(i.Set) != fmt.Sprint(all) {
				st.Update(s, func(i *ai.SymInfo) { i.Set = all })
			}
		}
	}
}

func (c *parserClient) LoopBack(st *ai.State, head *ssa.BasicBlock) {
	if c.id == "C01" {
		c.loops++
		if st.Ghost["=rewound"] != nil {
			c.fail(st, "C01", "rewound", "a loop goes on after the lexer was taken back to an earlier place without a token having been consumed since")
		}
		if st.Ghost["=stale"] != nil {
			c.fail(st, "C01", "stale", "a loop takes the lexer back to where it was before the loop")
		}
		// States of the lexer that were saved before.
		for o, n := ai.ObjID(1), st.Objs(); int(o) < n; o++ {
			ob := st.Object(o)
			if !c.isLexer(ob) || c.current(st, o) || !st.Local(o) {
				continue
			}
			if lx, ok := ob.V.(ai.StructV); ok {
				if rec, ok := lx.F[c.hidden].(ai.StructV); ok && len(rec.F) == rSize && rec.F[rDirty] != ai.Value(ai.K(2)) {
					fs, rs := append([]ai.Value(nil), lx.F...), append([]ai.Value(nil), rec.F...)
					rs[rDirty] = ai.K(2)
					fs[c.hidden] = ai.StructV{F: rs}
					st.UpdateObj(o, func(o *ai.Obj) { o.V = ai.StructV{F: fs} })
				}
			}
		}
	}
	if c.id == "C03" {
		for o, n := ai.ObjID(1), st.Objs(); int(o) < n; o++ {
			ob := st.Object(o)
			if ob == nil || ob.Kind != ai.List {
				continue
			}
			for _, s := range ob.Segs {
				if s.IsElem() {
					c.children(st, s.Elem, func(k ai.ObjID) { st.UpdateObj(k, func(o *ai.Obj) { o.Flags |= fAttached }) })
				}
			}
		}
		for _, in := range head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if v := st.Reg(phi); v != nil {
				c.children(st, v, func(k ai.ObjID) { st.UpdateObj(k, func(o *ai.Obj) { o.Flags |= fAttached }) })
			}
		}
	}
	c.blur(st)
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v, ok := st.Reg(phi).(ai.Int); ok {
			// How often does not matter.
			if v = st.ResInt(v); v.IsConst() && (v.Off > 1 || v.Off < -1) || !v.IsConst() && st.Info(v.Base).Label == "count" {
				st.SetReg(phi, st.Unknown(phi.Type(), "count"))
			}
			continue
		}
		if l, ok := phi.Type().Underlying().(*types.Slice); ok && c.nodeElem(l.Elem()) {
			if v, ok := st.Reg(phi).(ai.SliceV); ok && !st.Object(v.Obj).Input {
				st.SetReg(phi, st.Unknown(phi.Type(), "part"))
			}
			continue
		}
		if v := st.Reg(phi); v != nil && c.m.isNodeType(phi.Type()) {
			if _, isNil := st.Resolve(v).(ai.Nil); !isNil {
				st.SetReg(phi, c.unknown(st, phi.Type(), v))
			}
		}
	}
}

// nodeElem says whether a type is that of nodes, or an interface that nodes implement.
func (c *parserClient) nodeElem(t types.Type) bool {
	if i, ok := t.Underlying().(*types.Interface); ok {
		for _, n := range c.m.named {
			if types.Implements(types.NewPointer(n), i) {
				return true
			}
		}
		return false
	}
	return c.m.isNodeType(t)
}

func (c *parserClient) Exit(st *ai.State) {
	delete(st.Ghost, "=stale")
	if st.Panic() != nil {
		if msg, ok := ai.RuntimePanic(st.Panic()); ok && !strings.Contains(msg, " at ") {
			st.SetPanic(msg + " at " + st.Where())
		}
		if st.Fn == c.parse {
			c.exits++
			what := "a value of the parser's own"
			if msg, ok := ai.RuntimePanic(st.Panic()); ok {
				what = msg
			}
			c.fail(st, "C02", "panic:"+what, "Parse may panic: %s", what)
			return
		}
		c.abandon(st)
		return
	}
	if st.Fn != c.parse {
		c.blur(st)
		st.SetResult(c.abstract(st, st.Result()))
		return
	}
	c.exits++
	if res, ok := st.Result().(ai.TupleV); ok {
		if p, ok := res.V[0].(ai.Ptr); !ok || len(p.Path) > 0 {
			return // not accepted
		}
	}
	if t, ok := st.Ghost["lost"].(ai.Tag); ok {
		c.fail(st, "C03", "lost:"+t.S, "the text of %s is not in the tree", t.S)
	}
	if v, ok := st.Ghost["owed"].(ai.StructV); ok {
		c.fail(st, "C03", "lost:"+v.F[2].(ai.Tag).S, "the text of %s is not in the tree", v.F[2].(ai.Tag).S)
	}
}

// abstract forgets which node a result is.
func (c *parserClient) abstract(st *ai.State, v ai.Value) ai.Value {
	if t, ok := v.(ai.TupleV); ok {
		out := ai.TupleV{}
		for _, e := range t.V {
			out.V = append(out.V, c.abstract(st, e))
		}
		return out
	}
	if c.id == "C03" {
		return v
	}
	var t types.Type
	switch r := st.Resolve(v).(type) {
	case ai.Ptr:
		o := st.Object(r.Obj)
		if len(r.Path) > 0 || !c.isNode(o) || !st.Local(r.Obj) {
			return v
		}
		t = types.NewPointer(o.T)
	case ai.Iface:
		if !c.m.isNodeType(r.T) {
			return v
		}
		t = r.T
	default:
		return v
	}
	x := c.unknown(st, t, v)
	if r, ok := st.Resolve(v).(ai.Iface); ok {
		return ai.Iface{T: r.T, V: x}
	}
	return x
}

// abandon forgets where the lexer is when a function is left with an error.
func (c *parserClient) abandon(st *ai.State) {
	i, ok := st.Panic().(ai.Iface)
	if !ok || !types.Identical(i.T, c.errT) {
		return
	}
	e := st.NewSym(ai.SymInfo{T: c.errT, Nil: ai.No, Label: "error"})
	st.SetPanicValue(ai.Iface{T: c.errT, V: ai.SymV{S: e}})
	c.blur(st)
	for o, n := ai.ObjID(1), st.Objs(); int(o) < n; o++ {
		ob := st.Object(o)
		if !c.isLexer(ob) {
			continue
		}
		sv, ok := ob.V.(ai.StructV)
		if !ok || !c.current(st, o) {
			continue
		}
		lx := ai.StructV{F: append([]ai.Value(nil), sv.F...)}
		rec := lx.F[c.hidden].(ai.StructV)
		c.token(st, &lx, ai.Int{}, ai.Int{}, true, true)
		r2 := lx.F[c.hidden].(ai.StructV)
		r2.F[rMode], r2.F[rDirty] = rec.F[rMode], ai.K(1)
		st.UpdateObj(o, func(o *ai.Obj) { o.V = lx })
	}
}

// current says whether a lexer is the one that is in use.
func (c *parserClient) current(st *ai.State, id ai.ObjID) bool {
	p, ok := st.Ghost["lexer"].(ai.Ptr)
	return ok && p.Obj == id
}

var parserLimit = 1500

func checkParser(p *Program, r *Report, id string) {
	switch id {
	case "C01":
		r.Rule = "every cycle of the state graphs of the lexer and of the parser consumes a byte or a token, and no round of a loop of the parser goes on after the lexer was taken back without a token having been consumed since"
	case "C02":
		r.Rule = "no path through the lexer, Parse or Transform ends in a panic, other than that of the lexer's errors, which Parse recovers"
	case "C03":
		r.Rule = "on every path on which Parse accepts, the literal of every token that was consumed has been stored in a node or compared with a text, and every node with a text is attached to another or to the stylesheet"
	case "C29":
		r.Rule = "nodes of selectors are made while whitespace tokens are on and from tokens that were read so, all other nodes are made while they are off"
	}
	r.Explanation = "Abstract interpretation of Parse and all it calls, in SSA form, to a fixpoint over all sequences of tokens: a call of Next gives a token of any kind with a symbolic literal and positions, or the error of the lexer; functions are summarised for the abstract states that they are called in, errors and deferred functions included."
	if id == "C01" || id == "C02" {
		r.Explanation += " The lexer is interpreted on its own, over a symbolic text, with every setting before every token."
	}
	if id == "C02" {
		r.Explanation += " " + transformChecks[id].what
	}
	r.Assumptions = []string{"the lexer gives tokens in the order of their positions, and whitespace and comment tokens only when it was set so (C05, C06)"}
	switch id {
	case "C01":
		r.Assumptions = append(r.Assumptions, "memory and the stack suffice: the depth of nesting is not bounded")
	case "C02":
		r.Assumptions = append(r.Assumptions, "memory and the stack suffice: the depth of nesting is not bounded", "trees that are transformed have the shapes that the driver makes, with open parts")
	}
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return
	}
	c := &parserClient{astClient: astClient{m}, id: id, lexT: p.Named("internal/lexer", "Lexer"), index: map[string]int{}, hidden: -1,
		kinds: map[string]int64{}, names: map[int64]string{}, parse: p.Func("internal/parser", "Parse"), sites: map[string]bool{}, tests: map[*ssa.Function]bool{}}
	srcT := p.Named("internal/sources", "Source")
	errT := p.Named("internal/lexer", "Error")
	if c.lexT == nil || c.parse == nil || srcT == nil || errT == nil {
		r.Violation("anchor", "parser.Parse, lexer.Lexer, lexer.Error or sources.Source is gone")
		return
	}
	c.errT = types.NewPointer(errT)
	if c.sheetT = p.Named("internal/ast", "Stylesheet"); c.sheetT == nil {
		r.Violation("anchor", "ast.Stylesheet is gone")
		return
	}
	for i, f := range structFields(c.lexT) {
		c.index[f.Name()] = i
		if !f.Exported() && c.hidden < 0 {
			c.hidden = i
		}
	}
	for _, f := range []string{"Current", "CurrentString", "CurrentNumeral", "RetainWhitespace", "RetainComments"} {
		if _, ok := c.index[f]; !ok || c.hidden < 0 {
			r.Violation("anchor", "lexer.Lexer.%s is gone", f)
			return
		}
	}
	for name, mem := range p.Pkgs["internal/lexer"].Members {
		if k, ok := mem.(*ssa.NamedConst); ok && k.Type().String() == modulePath+"/internal/lexer.Token" {
			c.kinds[name] = k.Value.Int64()
			c.names[k.Value.Int64()] = name
		}
	}
	for name, k := range c.kinds {
		if name != "Illegal" {
			c.anyKind = c.anyKind.Union(ai.SetOf(k))
		}
	}
	c.valueT = p.Pkgs["internal/ast"].Pkg.Scope().Lookup("Value").Type()
	c.value = c.valueT.Underlying().(*types.Interface)
	if id == "C01" || id == "C02" {
		lm, lc, ok := lexMachine(p, r, id)
		if !ok {
			return
		}
		for _, f := range lm.Findings {
			r.Violation(f.Key, "%s", f.Msg)
		}
		for _, t := range lm.Trouble {
			r.Violation("undecided:"+t, "%s", t)
		}
		if id == "C01" {
			for _, cyc := range lm.Cycles(false) {
				r.Violation("lexer cycle:"+cyc, "lexing may not end: %s", cyc)
			}
		}
		r.Require("kinds of tokens of the lexer", len(lc.seenKinds), 15)
		r.Counts["abstract states of the lexer"] = len(lm.Nodes)
	}
	mach := ai.NewMachine(p.Prog, c)
	mach.InRepo = inRepo
	mach.PosOf = p.Pos
	mach.Debug = verbose
	mach.Limit, mach.Budget, mach.Enough = parserLimit, 20000000, 4000
	st := mach.NewState()
	for _, pkg := range []string{"internal/parser", "internal/ast"} {
		var gs []*ssa.Global
		for _, mem := range p.Pkgs[pkg].Members {
			if g, ok := mem.(*ssa.Global); ok && types.Identical(g.Type().(*types.Pointer).Elem().Underlying(), types.Typ[types.String]) {
				gs = append(gs, g)
			} else if ok {
				if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map); ok {
					gs = append(gs, g)
				}
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		for _, g := range gs {
			st.GlobalObj(g)
		}
	}
	src := ai.StructV{}
	for _, f := range structFields(srcT) {
		src.F = append(src.F, st.Unknown(f.Type(), f.Name()))
	}
	obj := st.NewObj(&ai.Obj{Kind: ai.Cell, T: srcT, V: src})
	mach.Start(c.parse, st, []ai.Value{ai.Ptr{Obj: obj}}, nil)
	if id == "C02" {
		for _, fn := range fnsByName(c.tests) {
			s := ai.NewMachine(p.Prog, &testClient{astClient: c.astClient})
			s.InRepo, s.PosOf, s.Limit = inRepo, p.Pos, 4000
			t := s.NewState()
			s.Start(fn, t, []ai.Value{t.Unknown(stringType, "literal")}, nil)
			mach.Findings = append(mach.Findings, s.Findings...)
			mach.Trouble = append(mach.Trouble, s.Trouble...)
		}
	}
	for _, f := range mach.Findings {
		r.Violation(f.Key, "%s", f.Msg)
	}
	for _, t := range mach.Trouble {
		r.Violation("undecided:"+t, "%s", t)
	}
	if id == "C01" {
		for _, cyc := range mach.Cycles(false) {
			r.Violation("cycle:"+cyc, "parsing may not end: %s", cyc)
		}
	}
	if id == "C02" {
		runTransform(p, r, id, transformChecks[id])
	}
	r.Counts["steps"] += mach.Steps
	r.Counts["places that read a token"] = len(c.sites)
	r.Counts["tokens"] = c.tokens
	r.Require("places that read a token", len(c.sites), 20)
	switch id {
	case "C01":
		r.Counts["rounds of loops"] = c.loops
		r.Require("rounds of loops", c.loops, 15)
	case "C29":
		r.Counts["nodes"] = c.nodes
		r.Require("nodes", c.nodes, 40)
	}
	if verbose {
		var s []string
		for k := range c.sites {
			s = append(s, k)
		}
		sort.Strings(s)
		fmt.Println(s)
	}
}

// testClient is for the predicates on literals.
type testClient struct{ astClient }

func (c *testClient) Exit(st *ai.State) {
	if st.Panic() == nil {
		return
	}
	msg, ok := ai.RuntimePanic(st.Panic())
	if !ok {
		msg = "a value"
	}
	st.M.Report("panic:"+msg+" in "+st.Fn.String(), "%s: %s may panic: %s", st.Where(), st.Fn, msg)
}

func fnsByName(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
