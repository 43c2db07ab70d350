package main

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C05, C06, C30 (and the lexer's part of C01 and C02): the lexer over a symbolic text.

const lexDriver = `package zzdriver

import (
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/sources"
)

func check(kind lexer.Token, str, num string, start, end, stop int) {}
func flags(ws, comments bool)                                          {}
func choose() bool                                                      { return false }
func merge() bool                                                       { return false }
func stale() string                                                     { return "" }
func staleToken() lexer.Token                                           { return 0 }

// Lex uses the lexer in every way that is possible from its exported interface.
func Lex(src *sources.Source) {
	l := lexer.NewLexer(src)
	for {
		span := l.TokenSpan()
		check(l.Current, l.CurrentString, l.CurrentNumeral, span.Start, span.End, l.TokenEnd())
		l.CurrentString, l.CurrentNumeral, l.Current = stale(), stale(), staleToken()
		for again := true; again; again = merge() {
			// Whatever came before, the lexer is now at the start of a token.
		}
		l.RetainWhitespace, l.RetainComments = choose(), choose()
		flags(l.RetainWhitespace, l.RetainComments)
		l.Next()
	}
}
`

func init() {
	for _, id := range []string{"C05", "C06"} {
		id := id
		register(id, func(p *Program, r *Report) { checkLexer(p, r, id) })
	}
}

var driven *Program

// driverProgram is the repository with a driver for the lexer.
func driverProgram(p *Program) (*Program, error) {
	if driven == nil {
		d, err := loadProgram(p.Root, map[string][]byte{
			filepath.Join(p.Root, "internal", "zzdriver", "driver.go"): []byte(lexDriver),
		})
		if err != nil {
			return nil, err
		}
		driven = d
	}
	return driven, nil
}

type lexClient struct {
	astClient
	prop              string
	win               *lexWindow
	spec              bool
	driver, nextFn    *ssa.Function
	srcT              *types.Named
	lexErr            types.Type
	kinds             map[string]int64
	names             map[int64]string
	lines             int // index of Source.Lines
	lexT              *types.Named
	wsField, comField int
	cont              int

	tokens, errors, stores int
	seenKinds              map[string]bool
	inFacts                bool
}

func (c *lexClient) fail(st *ai.State, prop, key, format string, args ...interface{}) {
	if prop == c.prop {
		st.M.Report(key, "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
	}
	st.Infeasible()
}

// note reports for the property without ending the path.
func (c *lexClient) note(st *ai.State, prop, key, format string, args ...interface{}) {
	if prop == c.prop {
		c.fail(st, prop, key, format, args...)
	}
}

func (c *lexClient) specOf(st *ai.State, force bool) lexSpec {
	return lexSpec{w: c.win, st: st, force: force}
}

// Advance lets the specification follow the lexer, up to the code point before its place.
func (c *lexClient) Advance(st *ai.State, args []ai.Value) {
	if !c.spec || st.Ghost["s.pos"] == nil || st.Fn == c.driver {
		return
	}
	c.win.ended(st)
	s := c.specOf(st, false)
	at := c.win.from(st, args)
	s.limit = at
	if cells := c.win.cells(st); at < len(cells) && cells[at].eof {
		s.limit = 0 // there is nothing else
		s.run()
	} else if at > 0 {
		s.run()
	}
	c.settle(st, at, max(at, c.known(st, args)))
}

// looked notes how far a function that reads code points has looked, until it is over.
func (c *lexClient) looked(st *ai.State, pos ai.Int) {
	cells := c.win.cells(st)
	k, ok := c.win.index(st, cells, pos)
	if !c.spec || !ok {
		return
	}
	owner := ai.Value(ai.Tag{S: st.Fn.String()})
	if t, ok := st.Ghost["=read"].(ai.TupleV); ok {
		owner = t.V[0]
		if was, ok := c.win.index(st, cells, t.V[1].(ai.Int)); ok && was > k {
			return
		}
	}
	st.Ghost["=read"] = ai.TupleV{V: []ai.Value{owner, pos}}
}

// known is the last code point of which the lexer knows more than is written in its state.
func (c *lexClient) known(st *ai.State, args []ai.Value) int {
	used := map[ai.Sym]bool{}
	for _, i := range st.Ints(args) {
		used[i.Base] = i.Base != 0
	}
	var read ai.Value
	if t, ok := st.Ghost["=read"].(ai.TupleV); ok {
		read = t.V[1]
	}
	known := -1
	for i, cell := range c.win.cells(st) {
		if read == cell.pos || used[cell.cp.Base] || used[cell.size.Base] {
			known = i
		}
	}
	return known
}

// settle runs the specification as far as it is determined, and forgets the text that it does not
// look at next.
// keep is the last code point of which everything is kept.
func (c *lexClient) settle(st *ai.State, at, keep int) {
	s := c.specOf(st, false)
	s.det, s.place = true, at
	s.run()
	cells := c.win.cells(st)
	pos := st.Ghost["s.pos"].(ai.Int)
	ahead := false
	for j, next := range cells {
		ahead = ahead || next.pos == pos
		// Which newline follows does not matter yet.
		if !ahead || j <= keep || next.eof || next.newline || next.cp.Base != 0 && !st.SetOfInt(next.cp).Subset(setNL) || next.cp.Base == 0 && !setNL.Contains(next.cp.Off) {
			continue
		}
		class := setNL
		if j > 0 && !cells[j-1].newline && st.SetOfInt(cells[j-1].cp).Contains('\r') {
			if st.SetOfInt(next.cp).Contains('\n') {
				continue
			}
			class = setNL.Minus(setLF) // two newlines
		}
		cells[j].cp = st.NewInt("cp", class)
		c.win.setCells(st, cells)
	}
	for i, cell := range cells {
		if cell.pos != pos {
			continue
		}
		first := i + 1
		switch {
		case i == at+1 && s.sure(cells[at]):
			first = i
		case s.looks(cell), s.over() && i > at:
			return
		}
		last := max(first-1, keep)
		if n := last + 1; n < len(cells) && !cells[last].eof && st.SetOfInt(cells[last].cp).Contains('\r') &&
			(cells[n].eof || !st.SetOfInt(cells[n].cp).Contains('\n') || st.SetOfInt(cells[n].cp).Subset(setLF)) {
			last = n // whether it is one newline with what follows
		}
		if last+1 < len(cells) && !cells[last].eof {
			c.win.truncate(st, cells, last)
		}
		return
	}
}

func (c *lexClient) finish(st *ai.State) string {
	s := c.specOf(st, false)
	s.run()
	if !s.over() {
		s.force, s.most = true, len(c.win.cells(st))+4
		s.run()
	}
	return st.Ghost["=mode"].(ai.Tag).S
}

func (c *lexClient) isContent(st *ai.State, s ai.Str) bool {
	t, ok := st.Ghost["content"].(ai.Str)
	if !ok {
		return false
	}
	k := t.Single()
	return k != 0 && s.Single() == k
}

func (c *lexClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	for _, a := range call.Args {
		if s, ok := a.(ai.Str); ok {
			c.nameFacts(st, s)
		}
	}
	switch {
	case c.spec && call.Fn == c.nextFn:
		c.anywhere(st)
	case strings.HasSuffix(call.Name, "/zzdriver.check"):
		c.check(st, call.Args)
		return ai.TupleV{}, true
	case strings.HasSuffix(call.Name, "/zzdriver.flags"):
		st.Ghost["=ws"], st.Ghost["=com"] = st.Resolve(call.Args[0]), st.Resolve(call.Args[1])
		if c.spec {
			st.Ghost["=mode"] = ai.Tag{S: "begin"}
		}
		return ai.TupleV{}, true
	case strings.HasSuffix(call.Name, "/zzdriver.merge"):
		if st.DecideTop() {
			st.Progress() // The loop is the driver's own.
			return ai.Bool(true), true
		}
		return ai.Bool(false), true
	case strings.HasSuffix(call.Name, "/zzdriver.choose"):
		return st.NewInt("flag", ai.Range(0, 1)), true
	case strings.HasSuffix(call.Name, "/zzdriver.staleToken"):
		return st.NewInt("stale", nil), true
	case strings.HasSuffix(call.Name, "/zzdriver.stale"):
		return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "stale"})), true
	}
	switch call.Name {
	case "unicode/utf8.DecodeRuneInString":
		pos, ok := c.win.position(st, call.Args[0])
		if !ok {
			return ai.TupleV{V: []ai.Value{st.NewInt("rune", ai.Range(0, maxRune)), st.NewInt("size", ai.Range(0, 4))}}, true
		}
		v := c.win.decode(st, pos)
		c.looked(st, pos)
		return v, true
	case "fmt.Errorf", "errors.New":
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No})}, true
	case "strings.EqualFold":
		for i := range call.Args {
			if t, ok := st.ResStr(call.Args[i].(ai.Str)).Const(); ok && strings.EqualFold(t, "url") {
				if yes, ok := c.nameIsURL(st, call.Args[1-i]); ok {
					return ai.Bool(yes), true
				}
			}
		}
	case "strings.ToLower", "strings.ToUpper":
		if yes, ok := c.nameIsURL(st, call.Args[0]); ok {
			t := "url"
			if strings.HasSuffix(call.Name, "Upper") {
				t = "URL"
			}
			if yes {
				return ai.Lit(t), true
			}
			return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "name", Ne: []string{t}})), true
		}
	}
	return c.astClient.Call(st, call)
}

// nameIsURL says whether a string is the name that has just been read, and whether it is url.
func (c *lexClient) nameIsURL(st *ai.State, v ai.Value) (yes, ok bool) {
	if !c.spec {
		return
	}
	if _, hi, isPart := c.win.part(st, v); !isPart || hi == c.win.contentLen(st) {
		return
	}
	sp := c.specOf(st, false)
	sp.det, sp.place = true, c.win.from(st, nil)
	sp.run()
	nlo, has := st.Ghost["s.namelo"].(ai.Int)
	lo, hi, isPart := c.win.part(st, v)
	if !has || !isPart {
		return
	}
	if st.Equal(lo, nlo) != ai.Yes || st.Equal(hi, st.Ghost["s.namehi"].(ai.Int)) != ai.Yes {
		return
	}
	return c.specOf(st, false).url(), true
}

// SliceHook knows what is known about the text of a name.
func (c *lexClient) SliceHook(st *ai.State, s ai.Str, lo ai.Int, hi *ai.Int) (ai.Value, bool) {
	if !c.isContent(st, s) || hi == nil {
		return nil, false
	}
	if l, h := st.ResInt(lo), st.ResInt(*hi); l.IsConst() && h.IsConst() {
		return st.StrSlice(s, lo, hi), true
	}
	v := ai.SymStr(st.NewDef(stringType, "substr", s, st.ResInt(lo), st.ResInt(*hi)))
	c.nameFacts(st, v)
	return v, true
}

// nameFacts makes what is known about the text of a name known about its bytes.
func (c *lexClient) nameFacts(st *ai.State, v ai.Str) {
	sym := v.Single()
	if sym == 0 || !c.spec || st.Ghost["content"] == nil || c.inFacts {
		return
	}
	c.inFacts = true
	defer func() { c.inFacts = false }()
	url, ok := c.nameIsURL(st, v)
	if !ok {
		return
	}
	byteAt := func(i int, set ai.IntSet) {
		if b, ok := st.StrIndex(v, ai.K(int64(i))).(ai.Int); ok {
			st.RefineSet(b, set)
		}
	}
	like := func(k int) ai.IntSet { return ai.SetOf(int64("url"[k]), int64("URL"[k])) }
	kase := int64(3)
	if !url {
		// The first code point that is not like url, or another length.
		i, known := st.Ghost["=case"].(ai.Int)
		if !known {
			i = st.NewInt("case", ai.SetOf(0, 1, 2, 4, 5))
			st.Ghost["=case"] = i
		}
		for kase = 0; kase < 5 && !st.DecideIn(i, ai.SetOf(kase)); kase++ {
		}
	}
	switch kase {
	case 4:
		st.RefineSet(st.StrLen(v), ai.Range(0, 2))
		return
	case 5:
		st.RefineSet(st.StrLen(v), ai.Range(4, math.MaxInt64))
		return
	}
	n := ai.K(3)
	st.Update(sym, func(i *ai.SymInfo) { i.Len = &n })
	for i := 0; i < 3; i++ {
		if int64(i) == kase {
			byteAt(i, ai.Range(0, 255).Minus(like(i)))
			return
		}
		byteAt(i, like(i))
	}
}

func (c *lexClient) AddHook(st *ai.State, a, b ai.Int) (ai.Int, bool) {
	r, ok := c.win.sum(st, a, b)
	return r, ok
}

func (c *lexClient) IndexHook(st *ai.State, s ai.Str, idx ai.Int) (ai.Value, bool) {
	if !c.isContent(st, s) {
		c.nameFacts(st, s)
		return nil, false
	}
	i := c.win.find(st, idx)
	if i < 0 {
		return st.NewInt("byte", ai.Range(0, 255)), true
	}
	cell := c.win.cells(st)[i]
	if cell.eof {
		st.Infeasible()
	}
	c.looked(st, cell.pos)
	if cell.newline {
		return st.NewInt("byte", setNL), true
	}
	if st.SetOfInt(cell.cp).Subset(setASCII) {
		return cell.cp, true
	}
	return st.NewInt("byte", ai.Range(128, 255)), true
}

func (c *lexClient) Compact(st *ai.State, where ai.Where, args []ai.Value) {
	if st.Ghost["content"] == nil {
		return // within a function of scalars
	}
	delete(st.Ghost, "=case")
	if t, ok := st.Ghost["=read"].(ai.TupleV); ok && (where == ai.AtLoop || where == ai.AtExit && t.V[0] == ai.Tag{S: st.Fn.String()}) {
		delete(st.Ghost, "=read")
	}
	if c.spec && st.Fn != c.driver {
		c.freeFlags(st)
	}
	start, hasStart := st.Ghost["s.start"].(ai.Int)
	for k := 1; k < st.Syms(); k++ {
		s := ai.Sym(k)
		si := st.Info(s)
		if si == nil || si.Def == nil {
			continue
		}
		switch {
		case si.Def.Op == "byteat" && si.Set != nil:
			st.Update(s, func(i *ai.SymInfo) { i.Set = nil })
		case si.Def.Op == "substr" && hasStart && where == ai.AtExit:
			if si.Len != nil {
				st.Update(s, func(i *ai.SymInfo) { i.Len = nil })
			}
			// Texts of what is behind.
			if _, hi, ok := c.win.part(st, ai.SymStr(s)); ok && st.Less(hi, start, true) == ai.Yes {
				st.Update(s, func(i *ai.SymInfo) { i.Def, i.Len, i.Label = nil, nil, "stale" })
			}
		}
	}
	c.win.compact(st, []string{"s.start", "s.pos", "s.lo", "s.hi", "s.nlo", "s.nhi", "s.namelo", "s.namehi", "prev"}, args, where != ai.AtExit)
}

// anywhere makes the first token one like any other: it may be anywhere, with something before it.
func (c *lexClient) anywhere(st *ai.State) {
	cells := c.win.cells(st)
	if len(cells) == 0 || cells[0].pos != ai.K(0) {
		return
	}
	at := st.NewInt(posLabel, ai.Range(0, math.MaxInt64))
	if next := cells[0].next; !cells[0].eof && next.Base != 0 {
		size := ai.K(1)
		if !st.SetOfInt(cells[0].cp).Subset(setASCII) {
			size = st.NewInt("size", ai.Range(1, 4))
			st.AssumeLess(at, next, false)
			st.AssumeLess(next, at.Add(4), true)
		} else {
			st.Substitute(func(i ai.Int) ai.Int {
				if i.Base == next.Base {
					return at.Add(1 + i.Off - next.Off)
				}
				return i
			}, nil)
		}
		cells = c.win.cells(st)
		cells[0].size = size
	}
	cells[0].pos = at
	if cells[0].eof {
		cells[0].next = at
		st.Ghost["front"] = at
		st.AssumeEqual(at, c.win.contentLen(st), true)
	} else {
		st.AssumeLess(cells[0].next, c.win.contentLen(st), true)
	}
	c.win.setCells(st, cells)
	c.specOf(st, false).clear()
	st.Ghost["=mode"] = ai.Tag{S: "begin"}
	st.Ghost["s.start"], st.Ghost["s.pos"] = at, at
	for id := 1; id < st.Objs(); id++ {
		o := st.Object(ai.ObjID(id))
		if o == nil || o.T == nil || !types.Identical(o.T, c.lexT) {
			continue
		}
		v, ok := o.V.(ai.StructV)
		if !ok {
			continue
		}
		f := append([]ai.Value(nil), v.F...)
		for i, field := range structFields(c.lexT) {
			if f[i] == ai.K(0) && types.Identical(field.Type(), types.Typ[types.Int]) {
				f[i] = at
			} else if s, ok := f[i].(ai.Str); ok && len(s.P) == 0 {
				f[i] = ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "stale"}))
			} else if name := c.setting(i); name != "" {
				f[i] = st.NewInt("flag", ai.Range(0, 1))
				st.Ghost[name] = f[i]
			} else if field.Name() == "Current" {
				f[i] = st.NewInt("stale", nil)
			}
		}
		st.UpdateObj(ai.ObjID(id), func(o *ai.Obj) { o.V = ai.StructV{F: f} })
	}
}

// setting is where the setting in a field of the lexer is kept.
func (c *lexClient) setting(field int) string {
	switch field {
	case c.wsField:
		return "=ws"
	case c.comField:
		return "=com"
	}
	return ""
}

// freeFlags forgets what the settings are within a token for which they do not count.
func (c *lexClient) freeFlags(st *ai.State) {
	switch m, kind, _ := strings.Cut(st.Ghost["=mode"].(ai.Tag).S, ":"); m {
	case "done":
		if kind == "Comment" || kind == "Whitespace" {
			return
		}
	case "str", "esc", "hex", "num", "name", "urlws", "url":
	default:
		return
	}
	start, ok := st.Ghost["s.start"].(ai.Int)
	if !ok {
		return // failed
	}
	if _, here := c.win.index(st, c.win.cells(st), start); here {
		return // the lexer may still be at the end of a comment before
	}
	for id := 1; id < st.Objs(); id++ {
		o := st.Object(ai.ObjID(id))
		if o == nil || o.T == nil || !types.Identical(o.T, c.lexT) {
			continue
		}
		v, ok := o.V.(ai.StructV)
		if !ok {
			continue
		}
		f := append([]ai.Value(nil), v.F...)
		for i := range f {
			name := c.setting(i)
			if name == "" || !st.Ghost[name].(ai.Int).IsConst() || f[i] != st.Ghost[name] {
				continue
			}
			fresh := st.NewInt("flag", ai.Range(0, 1))
			st.Ghost[name], f[i] = fresh, fresh
		}
		st.UpdateObj(ai.ObjID(id), func(o *ai.Obj) { o.V = ai.StructV{F: f} })
	}
}

func (c *lexClient) Clip(st *ai.State) { c.win.clip(st) }

func (c *lexClient) isLines(st *ai.State, p ai.Ptr) bool {
	o := st.Object(p.Obj)
	return o != nil && o.T == types.Type(c.srcT) && len(p.Path) == 1 && p.Path[0].Field == c.lines
}

// The table of lines is some list, at every look another one; C30 is about it.
func (c *lexClient) StoreValue(st *ai.State, p ai.Ptr, v ai.Value) ai.Value {
	if !c.isLines(st, p) {
		return v
	}
	c.stores++
	return ai.Tag{S: "lines"}
}

func (c *lexClient) Load(st *ai.State, p ai.Ptr, t types.Type) (ai.Value, bool) {
	if c.isLines(st, p) {
		o := st.Object(p.Obj)
		if v, ok := o.V.(ai.StructV); ok {
			if _, set := v.F[c.lines].(ai.Tag); set {
				return c.lineTable(st), true
			}
		}
	}
	return c.astClient.Load(st, p, t)
}

func (c *lexClient) lineTable(st *ai.State) ai.Value {
	n := st.NewInt("len", ai.Range(1, math.MaxInt64))
	id := st.NewObj(&ai.Obj{Kind: ai.List, T: types.Typ[types.Int], Input: true, Len: n, Label: "lines"})
	return ai.SliceV{Obj: id, Len: n}
}

// check compares a token of the lexer with the specification.
func (c *lexClient) check(st *ai.State, args []ai.Value) {
	kindV, ok := st.Resolve(args[0]).(ai.Int)
	if !ok || !kindV.IsConst() {
		st.Undecided("kind of the token")
	}
	kind := c.names[kindV.Off]
	c.tokens++
	c.seenKinds[kind] = true
	if c.prop == "C01" {
		if st.Ghost["=eof"] != nil && kind != "EOF" {
			c.fail(st, "C01", "eof", "a %s token comes after the end of the text", kind)
		}
		if kind == "EOF" {
			st.Ghost["=eof"] = ai.K(1)
		}
	}
	if c.prop != "C01" || kind == "EOF" {
		st.Progress() // The lexer is called from outside.
	}
	if !c.spec {
		return
	}
	m := c.finish(st)
	want := ""
	switch {
	case strings.HasPrefix(m, "error:"):
		c.fail(st, "C05", "accepted:"+m, "malformed text (%s) is taken for a %s token", m[6:], kind)
	case !strings.HasPrefix(m, "done:"):
		c.note(st, "C06", "short:"+kind+":"+m, "a %s token is reported before its end (in the specification: %s)", kind, m)
		c.fail(st, "C05", "short:"+kind+":"+m, "a %s token is reported before the token is complete (in the specification: %s)", kind, m)
	default:
		want = m[5:]
	}
	if kind != want {
		c.note(st, "C05", "kind:"+want+":"+kind, "the token is a %s, but is reported as %s", want, kind)
	}
	start, end, stop := args[3].(ai.Int), args[4].(ai.Int), args[5].(ai.Int)
	wantStart, wantEnd := st.Ghost["s.start"].(ai.Int), st.Ghost["s.pos"].(ai.Int)
	if st.Equal(start, wantStart) != ai.Yes {
		c.note(st, "C06", "start:"+want, "the span of a %s token does not start where the token starts (%s, not %s)", want, st.Describe(start), st.Describe(wantStart))
	}
	for _, e := range []ai.Int{end, stop} {
		if st.Equal(e, wantEnd) != ai.Yes {
			c.note(st, "C05", "end:"+want, "a %s token does not end where the specification says (%s, not %s)", want, st.Describe(e), st.Describe(wantEnd))
			c.fail(st, "C06", "end:"+want, "the end of a %s token is not where the token ends (%s, not %s)", want, st.Describe(e), st.Describe(wantEnd))
		}
	}
	if kind == want {
		switch want {
		case "At", "Hash", "Dimension", "Comment", "String", "URL", "FunctionStart", "Ident", "Delim":
			c.literal(st, want, "text", args[1], "s.lo", "s.hi")
		}
		switch want {
		case "Number", "Percentage", "Dimension":
			c.literal(st, want, "number", args[2], "s.nlo", "s.nhi")
		}
	}
	st.Ghost["=mode"] = ai.Tag{S: "idle"}
	c.specOf(st, false).clear()
	st.Ghost["s.start"] = wantEnd
	c.forget(st, wantEnd)
}

// forget drops what is known about the text from a position on, apart from the first code point
// there, of which the class is kept. The lexer has told newlines from others there.
func (c *lexClient) forget(st *ai.State, from ai.Int) {
	cells := c.win.cells(st)
	for i, cell := range cells {
		if st.Equal(cell.pos, from) != ai.Yes {
			continue
		}
		if cell.eof {
			c.win.setCells(st, cells[i:])
			return
		}
		last := i
		if n := i + 1; n < len(cells) && st.SetOfInt(cell.cp).Subset(setCR) && !cells[n].eof && st.SetOfInt(cells[n].cp).Subset(setLF) {
			last = n // one newline
		}
		if cell.newline || cell.cp.IsConst() && setNL.Contains(cell.cp.Off) {
			cell.next = cells[last].next
			c.newline(st, &cell)
		}
		c.win.truncate(st, []lexCell{cell}, 0)
		if cell.cp.Base == 0 {
			return
		}
		class := setNonASCII
		if set := st.SetOfInt(cell.cp); set.Subset(setNL) {
			return
		} else if set.Subset(setASCII) {
			class = setASCII.Minus(setNL).Union(set)
		}
		st.Update(cell.cp.Base, func(i *ai.SymInfo) { i.Set = class })
	}
}

// newline makes a code point a newline of any kind.
func (c *lexClient) newline(st *ai.State, cell *lexCell) {
	next := st.NewInt(posLabel, ai.Range(0, math.MaxInt64))
	was := cell.next
	st.Substitute(func(i ai.Int) ai.Int {
		if i == was {
			return next
		}
		return i
	}, nil)
	st.AssumeLess(cell.pos, next, false)
	cell.cp, cell.size, cell.next = ai.K(cpNewline), ai.K(0), next
}

func (c *lexClient) literal(st *ai.State, kind, what string, v ai.Value, lo, hi string) {
	wl, wh := st.Ghost[lo].(ai.Int), st.Ghost[hi].(ai.Int)
	gl, gh, ok := c.win.part(st, v)
	if s, isStr := v.(ai.Str); isStr && !ok {
		if t, isConst := st.ResStr(s).Const(); isConst && t == "" && st.Equal(wl, wh) == ai.Yes {
			return
		}
	}
	if !ok {
		c.note(st, "C06", "literal:"+kind+":"+what, "the %s of a %s token is not a part of the source that belongs to this token", what, kind)
		return
	}
	if st.Equal(gl, wl) != ai.Yes || st.Equal(gh, wh) != ai.Yes {
		c.note(st, "C06", "literal:"+kind+":"+what, "the %s of a %s token is %s to %s, not %s to %s", what, kind, st.Describe(gl), st.Describe(gh), st.Describe(wl), st.Describe(wh))
	}
}

func (c *lexClient) Exit(st *ai.State) {
	if c.spec && st.Panic() == nil && st.Fn == c.nextFn && st.Ghost["content"] != nil {
		if m := c.finish(st); strings.HasPrefix(m, "done:") {
			c.forget(st, st.Ghost["s.pos"].(ai.Int))
			for _, k := range []string{"s.namelo", "s.namehi", "=url"} {
				delete(st.Ghost, k)
			}
		}
		return
	}
	if c.spec && st.Panic() != nil && st.Fn != c.driver && st.Ghost["content"] != nil {
		if m := c.finish(st); !strings.HasPrefix(m, "error:") {
			return // to be reported
		}
		front := st.NewInt(posLabel, ai.Range(0, math.MaxInt64))
		c.win.truncate(st, []lexCell{{pos: front, cp: ai.K(cpNewline), next: front}}, 0)
		c.win.setCells(st, nil)
		c.specOf(st, false).clear()
		delete(st.Ghost, "s.start")
		delete(st.Ghost, "s.pos")
		return
	}
	if st.Fn != c.driver || st.Panic() == nil {
		return
	}
	if msg, ok := ai.RuntimePanic(st.Panic()); ok {
		if strings.Contains(msg, "slice") || strings.Contains(msg, "index") {
			c.note(st, "C06", "panic:"+msg, "the lexer may panic: %s", msg)
		}
		c.fail(st, "C02", "panic:"+msg, "the lexer may panic: %s", msg)
	}
	i, ok := st.Panic().(ai.Iface)
	if !ok || !types.Identical(i.T, c.lexErr) {
		c.fail(st, "C02", "panic:type", "the lexer panics with something other than a *lexer.Error: the parser does not recover from it")
	}
	c.errors++
	if c.spec {
		m := c.finish(st)
		if !strings.HasPrefix(m, "error:") {
			what := m
			if strings.HasPrefix(m, "done:") {
				what = "a " + m[5:] + " token"
			}
			c.fail(st, "C05", "refused:"+m, "the lexer reports an error for a text that is well-formed so far (in the specification: %s)", what)
		}
	}
}

func checkLexer(p0 *Program, r *Report, prop string) {
	switch prop {
	case "C05":
		r.Rule = "at every token the lexer reports the kind, and stops at the end, that the automaton of the CSS Syntax tokenizer gives for the same code points; it reports an error exactly where the automaton does"
	case "C06":
		r.Rule = "at every token the span and the literals that the lexer reports are the positions that the automaton of the CSS Syntax tokenizer has marked, as expressions over the source; no slice is out of range"
	}
	r.Explanation = "Abstract interpretation of NewLexer, Next, TokenSpan and TokenEnd and all they call, in SSA form, over a symbolic text and with every setting of RetainWhitespace and RetainComments before every token, to a fixpoint over all paths. The code points around the current place are symbols that each branch restricts; positions are symbols with offsets; the specification runs over the same code points as the lexer looks at them."
	r.Assumptions = []string{"utf8.DecodeRuneInString does what its documentation says"}
	mach, c, ok := lexMachine(p0, r, prop)
	if !ok {
		return
	}
	for _, f := range mach.Findings {
		r.Violation(f.Key, "%s", f.Msg)
	}
	for _, t := range mach.Trouble {
		r.Violation("undecided:"+t, "%s", t)
	}
	r.Require("abstract tokens", c.tokens, 30)
	r.Require("kinds of tokens", len(c.seenKinds), 15)
	r.Require("abstract errors", c.errors, 4)
	r.Counts["decoded code points"] = c.win.created
	r.Counts["abstract states"] = len(mach.Nodes)
	r.Counts["steps"] = mach.Steps
}

func lexMachine(p0 *Program, r *Report, prop string) (*ai.Machine, *lexClient, bool) {
	p, err := driverProgram(p0)
	if err != nil {
		r.Violation("anchor", "the exported interface of the lexer has changed: %v", err)
		return nil, nil, false
	}
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return nil, nil, false
	}
	c := &lexClient{astClient: astClient{m}, prop: prop, win: &lexWindow{collapses: true}, spec: true,
		driver: p.Func("internal/zzdriver", "Lex"), srcT: p.Named("internal/sources", "Source"), lexT: p.Named("internal/lexer", "Lexer"),
		kinds: map[string]int64{}, names: map[int64]string{}, seenKinds: map[string]bool{}, lines: -1, cont: -1}
	c.win.known = c.known
	if e := p.Named("internal/lexer", "Error"); e != nil {
		c.lexErr = types.NewPointer(e)
	}
	if c.driver == nil || c.srcT == nil || c.lexErr == nil || c.lexT == nil {
		r.Violation("anchor", "sources.Source or lexer.Error is gone")
		return nil, nil, false
	}
	for name, mem := range p.Pkgs["internal/lexer"].Members {
		if k, ok := mem.(*ssa.NamedConst); ok && k.Type().String() == modulePath+"/internal/lexer.Token" {
			c.kinds[name] = k.Value.Int64()
			c.names[k.Value.Int64()] = name
		}
	}
	for i, f := range structFields(c.lexT) {
		switch f.Name() {
		case "RetainWhitespace":
			c.wsField = i
		case "RetainComments":
			c.comField = i
		}
	}
	c.nextFn = p.Prog.LookupMethod(types.NewPointer(c.lexT), p.Pkgs["internal/lexer"].Pkg, "Next")
	mach := ai.NewMachine(p.Prog, c)
	mach.InRepo = inRepo
	mach.PosOf = p.Pos
	mach.Debug = verbose
	mach.Limit, mach.Budget, mach.Enough = 6000, 15000000, 400000
	st := mach.NewState()
	content := c.win.start(st)
	src := ai.StructV{}
	str := c.srcT.Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		switch f := str.Field(i); f.Name() {
		case "Content":
			src.F = append(src.F, content)
			c.cont = i
		case "Lines":
			src.F = append(src.F, mach.Zero(st, f.Type()))
			c.lines = i
		default:
			src.F = append(src.F, st.Unknown(f.Type(), f.Name()))
		}
	}
	if c.lines < 0 || c.cont < 0 {
		r.Violation("anchor", "Source.Content or Source.Lines is gone")
		return nil, nil, false
	}
	st.Ghost["=ws"], st.Ghost["=com"] = ai.K(0), ai.K(0)
	if c.spec {
		st.Ghost["=mode"] = ai.Tag{S: "begin"}
		st.Ghost["s.pos"], st.Ghost["s.start"] = ai.K(0), ai.K(0)
	}
	obj := st.NewObj(&ai.Obj{Kind: ai.Cell, T: c.srcT, V: src})
	mach.Start(c.driver, st, []ai.Value{ai.Ptr{Obj: obj}}, nil)
	return mach, c, true
}

func structFields(n *types.Named) []*types.Var {
	var out []*types.Var
	if s, ok := n.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, s.Field(i))
		}
	}
	return out
}
