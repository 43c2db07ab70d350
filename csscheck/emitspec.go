package main

import (
	"fmt"
	"go/types"
	"strings"

	"csscheck/ai"
)

// The text that each kind of syntax-tree node must be printed as.

type emOp int

const (
	emLit    emOp = iota // a literal
	emField              // the text of a string field
	emNode               // the node in a field
	emEach               // the nodes in a list field
	emBranch             // goes to els unless cond holds
	emJump               // goes to els
	emQuote              // an opening or closing quote
	emSoft               // a literal whose absence is reported under its own key
	emText               // the text that a function computes
	emEnd
)

type emInstr struct {
	op    emOp
	lit   string
	field string
	sep   string // of emEach; "values": spaces except around commas
	trim  bool   // of emEach: a last element that is white space is left out
	cond  func(st *ai.State, n emNodeRef) bool
	text  func(st *ai.State, n emNodeRef) ai.Str
	els   int
	open  bool // of emQuote
}

type emItem interface{}
type emIf struct {
	cond func(st *ai.State, n emNodeRef) bool
	then []emItem
	els  []emItem
}

func lit(s string) emItem          { return emInstr{op: emLit, lit: s} }
func fld(s string) emItem          { return emInstr{op: emField, field: s} }
func node(s string) emItem         { return emInstr{op: emNode, field: s} }
func each(s, sep string) emItem    { return emInstr{op: emEach, field: s, sep: sep} }
func seq(items ...emItem) []emItem { return items }
func present(f string) func(st *ai.State, n emNodeRef) bool {
	return func(st *ai.State, n emNodeRef) bool { return !st.DecideNil(n.get(st, f)) }
}
func notEmpty(f string) func(st *ai.State, n emNodeRef) bool {
	return func(st *ai.State, n emNodeRef) bool { return !st.DecideStrEqual(n.str(st, f), ai.Lit("")) }
}
func isStr(f, s string) func(st *ai.State, n emNodeRef) bool {
	return func(st *ai.State, n emNodeRef) bool { return st.DecideStrEqual(n.str(st, f), ai.Lit(s)) }
}
func all(cs ...func(st *ai.State, n emNodeRef) bool) func(st *ai.State, n emNodeRef) bool {
	return func(st *ai.State, n emNodeRef) bool {
		for _, c := range cs {
			if !c(st, n) {
				return false
			}
		}
		return true
	}
}
func any_(cs ...func(st *ai.State, n emNodeRef) bool) func(st *ai.State, n emNodeRef) bool {
	return func(st *ai.State, n emNodeRef) bool {
		for _, c := range cs {
			if c(st, n) {
				return true
			}
		}
		return false
	}
}
func not(c func(st *ai.State, n emNodeRef) bool) func(st *ai.State, n emNodeRef) bool {
	return func(st *ai.State, n emNodeRef) bool { return !c(st, n) }
}

var emitSpecs = map[string][]emItem{
	"Stylesheet": seq(each("Nodes", "")),
	"AtRule": seq(lit("@"), fld("Name"),
		emIf{func(st *ai.State, n emNodeRef) bool { return !st.DecideEqual(n.length(st, "Preludes"), ai.K(0)) }, seq(lit(" "), each("Preludes", " ")), nil},
		emIf{present("Block"), seq(lit("{"), node("Block"), lit("}")), seq(lit(";"))}),
	"SelectorList":         seq(each("Selectors", ",")),
	"KeyframeSelectorList": seq(each("Selectors", ",")),
	"QualifiedRule":        seq(node("Prelude"), lit("{"), node("Block"), lit("}")),
	"QualifiedRuleBlock":   seq(each("Rules", "")),
	"DeclarationBlock":     seq(each("Declarations", ";")),
	"Declaration": seq(fld("Property"), lit(":"), each("Values", "values"),
		emIf{func(st *ai.State, n emNodeRef) bool { return st.DecideBool(n.get(st, "Important")) }, seq(lit("!important")), nil}),
	"Comma":                       seq(lit(",")),
	"Dimension":                   seq(fld("Value"), fld("Unit")),
	"Percentage":                  seq(fld("Value"), lit("%")),
	"String":                      seq(emInstr{op: emQuote, open: true, field: "Value"}, fld("Value"), emInstr{op: emQuote, field: "Value"}),
	"Identifier":                  seq(fld("Value")),
	"Function":                    seq(fld("Name"), lit("("), each("Arguments", "values"), lit(")")),
	"Brackets":                    seq(lit("["), each("Values", " "), lit("]")),
	"MathParenthesizedExpression": seq(lit("("), node("Value"), lit(")")),
	"MathExpression": seq(node("Left"),
		emIf{any_(isStr("Operator", "+"), isStr("Operator", "-")),
			seq(emInstr{op: emSoft, lit: " ", field: "space before + or -"}, fld("Operator"), emInstr{op: emSoft, lit: " ", field: "space after + or -"}),
			seq(fld("Operator"))},
		node("Right")),
	"Whitespace": seq(lit(" ")),
	"Selector":   seq(emInstr{op: emEach, field: "Parts", trim: true}),
	"AttributeSelector": seq(lit("["), fld("Property"),
		emIf{present("Value"), seq(fld("PreOperator"), lit("="), node("Value"),
			emIf{notEmpty("Modifier"), seq(lit(" "), fld("Modifier")), nil}), nil},
		lit("]")),
	"TypeSelector":          seq(fld("Name")),
	"ClassSelector":         seq(lit("."), fld("Name")),
	"IDSelector":            seq(lit("#"), fld("Name")),
	"CombinatorSelector":    seq(fld("Operator")),
	"PseudoElementSelector": seq(lit(":"), node("Inner")),
	"HexColor":              seq(lit("#"), fld("RGBA")),
	"PseudoClassSelector": seq(lit(":"), fld("Name"),
		emIf{present("Arguments"), seq(lit("("), node("Arguments"), lit(")")), nil}),
	"MediaQueryList":    seq(each("Queries", ",")),
	"MediaQuery":        seq(each("Parts", " ")),
	"MediaFeaturePlain": seq(lit("("), node("Property"), emIf{present("Value"), seq(lit(":"), node("Value")), nil}, lit(")")),
	"MediaFeatureRange": seq(lit("("),
		emIf{present("LeftValue"), seq(node("LeftValue"), fld("Operator")), nil},
		node("Property"),
		emIf{present("RightValue"), seq(fld("Operator"), node("RightValue")), nil}, lit(")")),
	"Raw": seq(fld("Value")),
	// a may be omitted where it is 1, 0n is omitted, as is +0.
	"ANPlusB": seq(
		emIf{all(notEmpty("A"), not(isStr("A", "1")), not(isStr("A", "0"))),
			seq(emIf{isStr("A", "-1"), seq(lit("-")),
				seq(emIf{func(st *ai.State, n emNodeRef) bool { return st.DecidePrefix(n.str(st, "A"), "+") },
					seq(emInstr{op: emText, text: func(st *ai.State, n emNodeRef) ai.Str { return st.StrSlice(n.str(st, "A"), ai.K(1), nil) }, field: "A without its sign"}),
					seq(fld("A"))})}), nil},
		emIf{not(isStr("A", "0")), seq(lit("n")), nil},
		emIf{all(notEmpty("B"), not(isStr("B", "0"))),
			seq(emIf{any_(not(isStr("A", "0")), isStr("Operator", "-")), seq(fld("Operator")), nil}, fld("B")),
			seq(emIf{isStr("A", "0"), seq(lit("0")), nil})}),
}

func compileEmit(items []emItem) []emInstr {
	var out []emInstr
	var walk func(items []emItem)
	walk = func(items []emItem) {
		for _, it := range items {
			switch it := it.(type) {
			case emInstr:
				out = append(out, it)
			case emIf:
				br := len(out)
				out = append(out, emInstr{op: emBranch, cond: it.cond})
				walk(it.then)
				if len(it.els) > 0 {
					j := len(out)
					out = append(out, emInstr{op: emJump})
					out[br].els = len(out)
					walk(it.els)
					out[j].els = len(out)
				} else {
					out[br].els = len(out)
				}
			}
		}
	}
	walk(items)
	return append(out, emInstr{op: emEnd})
}

// emNodeRef is a node of the tree in a state.
type emNodeRef struct {
	m    *astModel
	name string
	ptr  ai.Ptr
}

func (n emNodeRef) get(st *ai.State, field string) ai.Value {
	i := n.m.fieldIndex(n.name, field)
	if i < 0 {
		st.Undecided("field %s.%s is gone", n.name, field)
	}
	path := append(append([]ai.Sel(nil), n.ptr.Path...), ai.Sel{Field: i})
	return st.LoadPtr(ai.Ptr{Obj: n.ptr.Obj, Path: path}, n.m.structOf(n.name).Field(i).Type())
}

func (n emNodeRef) str(st *ai.State, field string) ai.Str {
	s, ok := n.get(st, field).(ai.Str)
	if !ok {
		st.Undecided("field %s.%s is not a string", n.name, field)
	}
	return s
}

func (n emNodeRef) list(st *ai.State, field string) (ai.SliceV, bool) {
	s, ok := n.get(st, field).(ai.SliceV)
	return s, ok
}

func (n emNodeRef) length(st *ai.State, field string) ai.Int {
	s, ok := n.list(st, field)
	if !ok {
		return ai.K(0)
	}
	return st.SliceLen(s)
}

// emitter follows the output of a printing function along the specification. Its position
// is in the ghost state: frame i is the node "e<i>.node" at instruction "e<i>.pc".
type emitter struct {
	m     *astModel
	specs map[string][]emInstr
	key   string // of the function and type that is analysed
}

func newEmitter(m *astModel) *emitter {
	e := &emitter{m: m, specs: map[string][]emInstr{}}
	for n, s := range emitSpecs {
		e.specs[n] = compileEmit(s)
	}
	return e
}

func (e *emitter) depth(st *ai.State) int {
	d, ok := st.Ghost["e.depth"].(ai.Tag)
	if !ok {
		return -1
	}
	return atoi(d.S)
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

func tagN(n int) ai.Tag { return ai.Tag{S: fmt.Sprint(n)} }

func (e *emitter) push(st *ai.State, name string, p ai.Ptr) {
	d := e.depth(st) + 1
	if e.specs[name] == nil {
		e.fail(st, name+":no-spec", "there is no rule for how a %s is printed", name)
	}
	pre := fmt.Sprintf("e%d.", d)
	st.Ghost[pre+"node"] = p
	st.Ghost[pre+"name"] = ai.Tag{S: name}
	st.Ghost[pre+"pc"] = tagN(0)
	st.Ghost[pre+"off"] = tagN(0)
	st.Ghost[pre+"n"] = ai.K(0)
	st.Ghost["e.depth"] = tagN(d)
}

func (e *emitter) pop(st *ai.State) {
	d := e.depth(st)
	pre := fmt.Sprintf("e%d.", d)
	for _, k := range []string{"node", "name", "pc", "off", "n"} {
		delete(st.Ghost, pre+k)
	}
	st.Ghost["e.depth"] = tagN(d - 1)
}

type emFrame struct {
	pre  string
	ref  emNodeRef
	pc   int
	off  int
	n    ai.Int
	in   emInstr
	deep int
}

func (e *emitter) top(st *ai.State) emFrame {
	d := e.depth(st)
	if d < 0 {
		st.Undecided("text is printed before the analysis knows for which node")
	}
	pre := fmt.Sprintf("e%d.", d)
	f := emFrame{pre: pre, deep: d}
	name := st.Ghost[pre+"name"].(ai.Tag).S
	f.ref = emNodeRef{e.m, name, st.Ghost[pre+"node"].(ai.Ptr)}
	f.pc = atoi(st.Ghost[pre+"pc"].(ai.Tag).S)
	f.off = atoi(st.Ghost[pre+"off"].(ai.Tag).S)
	f.n = st.Ghost[pre+"n"].(ai.Int)
	f.in = e.specs[name][f.pc]
	return f
}

func (e *emitter) setPC(st *ai.State, f emFrame, pc int) {
	st.Ghost[f.pre+"pc"] = tagN(pc)
	st.Ghost[f.pre+"off"] = tagN(0)
	st.Ghost[f.pre+"n"] = ai.K(0)
}

func (e *emitter) fail(st *ai.State, key, format string, args ...interface{}) {
	st.M.Report(e.key+":"+key, "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
	st.Infeasible()
}

func describeInstr(f emFrame) string {
	switch f.in.op {
	case emLit:
		return fmt.Sprintf("%q", f.in.lit[f.off:])
	case emField, emText:
		return "the text of " + f.ref.name + "." + f.in.field
	case emNode:
		return "the node " + f.ref.name + "." + f.in.field
	case emEach:
		return "the elements of " + f.ref.name + "." + f.in.field
	case emQuote:
		return "a quote"
	case emSoft:
		return "a " + f.in.field
	}
	return "nothing more"
}

// opened is the node behind a value, if the program has looked at its type.
func (e *emitter) opened(st *ai.State, v ai.Value) (string, ai.Ptr, bool) {
	v = st.Resolve(v)
	if i, ok := v.(ai.Iface); ok {
		name := e.m.nodeName(i.T)
		if name == "" {
			return "", ai.Ptr{}, false
		}
		inner := st.Resolve(i.V)
		switch p := inner.(type) {
		case ai.Ptr:
			return name, p, true
		case ai.SymV:
			return name, ai.Ptr{Obj: st.Materialise(p.S)}, true
		}
		return "", ai.Ptr{}, false
	}
	if p, ok := v.(ai.Ptr); ok {
		o := st.Object(p.Obj)
		if len(p.Path) == 0 && o.Kind == ai.Cell && o.T != nil {
			if name := e.m.nodeName(types.NewPointer(o.T)); name != "" {
				return name, p, true
			}
		}
	}
	return "", ai.Ptr{}, false
}

// advance passes the instructions that print nothing, and returns the current one.
func (e *emitter) advance(st *ai.State) emFrame {
	for {
		f := e.top(st)
		switch f.in.op {
		case emBranch:
			if f.in.cond(st, f.ref) {
				e.setPC(st, f, f.pc+1)
			} else {
				e.setPC(st, f, f.in.els)
			}
		case emJump:
			e.setPC(st, f, f.in.els)
		case emEnd:
			if f.deep == 0 {
				return f
			}
			e.pop(st)
			g := e.top(st)
			if g.in.op == emEach {
				st.Ghost[g.pre+"n"] = st.ResInt(g.n).Add(1)
				st.Ghost[g.pre+"off"] = tagN(0)
			} else {
				e.setPC(st, g, g.pc+1)
			}
		case emField:
			if s, ok := f.ref.str(st, f.in.field).Const(); ok && s == "" {
				e.setPC(st, f, f.pc+1)
				continue
			}
			return f
		default:
			return f
		}
	}
}

// needsSep says whether the separator of a list is due before element n.
func (e *emitter) needsSep(st *ai.State, f emFrame) bool {
	if f.in.sep == "" || f.off > 0 {
		return false
	}
	return !st.DecideEqual(f.n, ai.K(0))
}

// exempt says whether two neighbours in a list of values have no space between them.
func (e *emitter) exempt(st *ai.State, f emFrame) bool {
	if f.in.sep != "values" {
		return false
	}
	return e.isType(st, e.elem(st, f, f.n), "Comma") || e.isType(st, e.elem(st, f, f.n.Add(-1)), "Comma")
}

func (e *emitter) elem(st *ai.State, f emFrame, idx ai.Int) ai.Value {
	l, ok := f.ref.list(st, f.in.field)
	if !ok {
		st.Undecided("element of an empty list")
	}
	return st.ElemAt(l.Obj, idx)
}

func (e *emitter) isType(st *ai.State, v ai.Value, name string) bool {
	v = st.Resolve(v)
	t := types.NewPointer(e.m.named[name])
	switch x := v.(type) {
	case ai.Iface:
		return types.Identical(x.T, t)
	case ai.SymV:
		if _, ok := st.Info(x.S).T.Underlying().(*types.Interface); ok {
			return st.DecideDyn(x.S, t)
		}
		return e.m.nodeName(st.Info(x.S).T) == name
	case ai.Ptr:
		return e.m.nodeName(types.NewPointer(st.Object(x.Obj).T)) == name
	}
	return false
}

// text consumes printed text.
func (e *emitter) text(st *ai.State, s ai.Str) {
	s = st.ResStr(s)
	for _, p := range s.P {
		if p.Sym != 0 {
			e.symbol(st, p.Sym)
			continue
		}
		e.literal(st, p.Lit)
	}
}

func (e *emitter) symbol(st *ai.State, s ai.Sym) {
	for {
		f := e.advance(st)
		if r := st.ResStr(ai.SymStr(s)); r.Single() != s {
			e.text(st, r)
			return
		}
		switch f.in.op {
		case emField, emText:
			var want ai.Str
			if f.in.op == emText {
				want = f.in.text(st, f.ref)
			} else {
				want = f.ref.str(st, f.in.field)
			}
			want = st.ResStr(want)
			if want.Single() == s {
				e.setPC(st, f, f.pc+1)
				return
			}
			if st.DecideStrEqual(want, ai.Lit("")) {
				e.setPC(st, f, f.pc+1)
				continue
			}
		case emSoft:
			e.soft(st, f)
			continue
		case emNode:
			if name, p, ok := e.opened(st, f.ref.get(st, f.in.field)); ok {
				e.push(st, name, p)
				continue
			}
		case emEach:
			if e.each(st, f) {
				continue
			}
		}
		if st.DecideStrEqual(ai.SymStr(s), ai.Lit("")) {
			return
		}
		e.fail(st, f.ref.name+":wrong-text:"+describeInstr(f), "%s is printed where %s should be", st.DescribeSym(s), describeInstr(f))
	}
}

func (e *emitter) soft(st *ai.State, f emFrame) {
	st.M.Report(e.key+":"+f.ref.name+":missing "+f.in.field, "%s: no %s is printed", st.Where(), f.in.field)
	e.setPC(st, f, f.pc+1)
}

// each moves on at a list where the current text is not the separator: past its end or into an
// element that the program has opened.
func (e *emitter) each(st *ai.State, f emFrame) bool {
	if e.atEnd(st, f) {
		e.setPC(st, f, f.pc+1)
		return true
	}
	el := e.elem(st, f, f.n)
	name, p, ok := e.opened(st, el)
	if !ok {
		return false
	}
	if e.needsSep(st, f) && !e.exempt(st, f) {
		e.fail(st, f.ref.name+":missing-separator:"+f.in.field, "nothing is printed between two elements of %s.%s", f.ref.name, f.in.field)
	}
	e.push(st, name, p)
	return true
}

func (e *emitter) atEnd(st *ai.State, f emFrame) bool {
	if f.off > 0 {
		return false // after a separator
	}
	n := f.ref.length(st, f.in.field)
	if st.DecideEqual(f.n, n) {
		return true
	}
	if f.in.trim && st.DecideEqual(f.n.Add(1), n) {
		return e.isType(st, e.elem(st, f, f.n), "Whitespace")
	}
	return false
}

func (e *emitter) literal(st *ai.State, s string) {
	for s != "" {
		f := e.advance(st)
		switch f.in.op {
		case emLit:
			rest := f.in.lit[f.off:]
			k := 0
			for k < len(rest) && k < len(s) && rest[k] == s[k] {
				k++
			}
			if k < len(rest) && k < len(s) {
				e.fail(st, f.ref.name+":wrong-text:"+describeInstr(f), "%q is printed where %s should be", s, describeInstr(f))
			}
			s = s[k:]
			if k == len(rest) {
				e.setPC(st, f, f.pc+1)
			} else {
				st.Ghost[f.pre+"off"] = tagN(f.off + k)
			}
			continue
		case emSoft:
			if strings.HasPrefix(s, f.in.lit) {
				s = s[len(f.in.lit):]
				e.setPC(st, f, f.pc+1)
			} else {
				e.soft(st, f)
			}
			continue
		case emField, emText:
			var want ai.Str
			if f.in.op == emText {
				want = f.in.text(st, f.ref)
			} else {
				want = f.ref.str(st, f.in.field)
			}
			want = st.ResStr(want)
			if c, ok := want.Const(); ok {
				if strings.HasPrefix(s, c) {
					s = s[len(c):]
					e.setPC(st, f, f.pc+1)
					continue
				}
			} else if st.DecideStrEqual(want, ai.Lit("")) {
				e.setPC(st, f, f.pc+1)
				continue
			}
		case emQuote:
			q := s[:1]
			if q == `"` || q == "'" {
				e.quote(st, f, q)
				s = s[1:]
				continue
			}
		case emNode:
			if name, p, ok := e.opened(st, f.ref.get(st, f.in.field)); ok {
				e.push(st, name, p)
				continue
			}
		case emEach:
			sep := f.in.sep
			if sep == "values" {
				sep = " "
			}
			if f.off == 0 && sep != "" && strings.HasPrefix(s, sep) && !st.DecideEqual(f.n, ai.K(0)) && !e.atEnd(st, f) {
				if e.exempt(st, f) {
					if name, p, ok := e.opened(st, e.elem(st, f, f.n)); ok {
						e.push(st, name, p)
						continue
					}
					e.fail(st, f.ref.name+":extra-separator:"+f.in.field, "a space is printed next to a comma in %s.%s", f.ref.name, f.in.field)
				}
				st.Ghost[f.pre+"off"] = tagN(1)
				s = s[len(sep):]
				continue
			}
			if e.each(st, f) {
				continue
			}
		}
		e.fail(st, f.ref.name+":wrong-text:"+describeInstr(f), "%q is printed where %s should be", s, describeInstr(f))
	}
}

// child consumes the output of the printing function for a node.
func (e *emitter) child(st *ai.State, v ai.Value) {
	for {
		f := e.advance(st)
		switch f.in.op {
		case emField:
			if st.DecideStrEqual(f.ref.str(st, f.in.field), ai.Lit("")) {
				e.setPC(st, f, f.pc+1)
				continue
			}
		case emSoft:
			e.soft(st, f)
			continue
		case emNode:
			want := f.ref.get(st, f.in.field)
			if sameNode(st, want, v) {
				e.setPC(st, f, f.pc+1)
				return
			}
			if name, p, ok := e.opened(st, want); ok {
				e.push(st, name, p)
				continue
			}
		case emEach:
			if e.atEnd(st, f) {
				e.setPC(st, f, f.pc+1)
				continue
			}
			el := e.elem(st, f, f.n)
			if sameNode(st, el, v) {
				if e.needsSep(st, f) && !e.exempt(st, f) {
					e.fail(st, f.ref.name+":missing-separator:"+f.in.field, "nothing is printed between two elements of %s.%s", f.ref.name, f.in.field)
				}
				st.Ghost[f.pre+"n"] = st.ResInt(f.n).Add(1)
				st.Ghost[f.pre+"off"] = tagN(0)
				return
			}
			if name, p, ok := e.opened(st, el); ok {
				e.push(st, name, p)
				continue
			}
		}
		e.fail(st, f.ref.name+":wrong-node:"+describeInstr(f), "a node (%s) is printed where %s should be", st.Describe(v), describeInstr(f))
	}
}

// sameNode compares nodes, whatever the interface that they are held in.
func sameNode(st *ai.State, a, b ai.Value) bool {
	return st.SameValue(bare(st, a), bare(st, b))
}

func bare(st *ai.State, v ai.Value) ai.Value {
	v = st.Resolve(v)
	if i, ok := v.(ai.Iface); ok {
		return st.Resolve(i.V)
	}
	return v
}

// quote checks the choice of quotes for a string.
func (e *emitter) quote(st *ai.State, f emFrame, q string) {
	if !f.in.open {
		if st.Ghost["e.quote"] != (ai.Tag{S: q}) {
			e.fail(st, f.ref.name+":quotes", "a string is closed with another quote than it was opened with")
		}
		delete(st.Ghost, "e.quote")
		e.setPC(st, f, f.pc+1)
		return
	}
	e.scan(st, f.ref)
	v := f.ref.str(st, f.in.field)
	pos, _ := st.Ghost["e.scan"].(ai.Int)
	state, _ := st.Ghost["e.scanned"].(ai.Tag)
	end := st.Less(st.StrLen(v), pos, true) == ai.Yes
	if c, ok := v.Const(); ok && c == "" {
		end = true
	}
	no := st.FactNo("strings.Contains", v, ai.Lit(`"`)) || st.FactNo("strings.ContainsRune", v, ai.K('"'))
	switch {
	case q == "'" && state.S == "double":
	case q == `"` && (end && state.S != "double" || no):
	default:
		e.fail(st, f.ref.name+":quote-choice", "%s is printed around a string although the text does not tell that this is the quote it was written in (an unescaped \" in it asks for ', anything else for \")", q)
	}
	st.Ghost["e.quote"] = ai.Tag{S: q}
	e.setPC(st, f, f.pc+1)
}

// scan follows the program's reading of the bytes of a string: it looks for a double quote that
// is not escaped.
func (e *emitter) scan(st *ai.State, ref emNodeRef) {
	if ref.name != "String" {
		return
	}
	v := ref.str(st, "Value")
	sym := v.Single()
	if sym == 0 {
		return
	}
	pos, ok := st.Ghost["e.scan"].(ai.Int)
	if !ok {
		pos = ai.K(0)
	}
	for k := 0; k < 4; k++ {
		if st.Ghost["e.scanned"] == (ai.Tag{S: "double"}) {
			break
		}
		set, ok := st.ByteFact(sym, pos)
		if !ok {
			break
		}
		switch {
		case set.Subset(ai.SetOf('"')):
			st.Ghost["e.scanned"] = ai.Tag{S: "double"}
		case set.Subset(ai.SetOf('\\')):
			pos = pos.Add(2)
			continue
		case set.Intersect(ai.SetOf('"', '\\')).Empty():
			pos = pos.Add(1)
			continue
		}
		break
	}
	st.Ghost["e.scan"] = pos
}

// finish checks that everything has been printed.
func (e *emitter) finish(st *ai.State) {
	for {
		f := e.advance(st)
		switch f.in.op {
		case emEnd:
			return
		case emField:
			if st.DecideStrEqual(f.ref.str(st, f.in.field), ai.Lit("")) {
				e.setPC(st, f, f.pc+1)
				continue
			}
		case emEach:
			if e.atEnd(st, f) {
				e.setPC(st, f, f.pc+1)
				continue
			}
			// An element that prints nothing?
		case emNode:
			if name, p, ok := e.opened(st, f.ref.get(st, f.in.field)); ok {
				e.push(st, name, p)
				continue
			}
		case emSoft:
			e.soft(st, f)
			continue
		}
		e.fail(st, f.ref.name+":incomplete:"+describeInstr(f), "%s is not printed", describeInstr(f))
	}
}

// keepElement says whether what is known about an element of a list is still needed.
func (e *emitter) keepElement(st *ai.State, list ai.ObjID, idx ai.Int) bool {
	for d := e.depth(st); d >= 0; d-- {
		pre := fmt.Sprintf("e%d.", d)
		n, ok := st.Ghost[pre+"n"].(ai.Int)
		if !ok {
			continue
		}
		n, idx := st.ResInt(n), st.ResInt(idx)
		if n.Base == idx.Base && (idx.Off == n.Off || idx.Off == n.Off-1) {
			return true
		}
	}
	return false
}
