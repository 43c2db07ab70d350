package main

import (
	"fmt"
	"strings"

	"csscheck/ai"
)

// The specification of the tokens of CSS (https://www.w3.org/TR/css-syntax-3/#tokenization),
// with the conventions of this lexer: it fails on malformed strings, urls, comments and
// escapes, keeps texts as they are in the source, and skips whitespace and comments unless told
// otherwise. It is an automaton that runs over the code points as the lexer looks at them.

const maxRune = 0x10ffff

var (
	setWS       = ai.SetOf('\n', '\r', '\f', '\t', ' ')
	setNL       = ai.SetOf('\n', '\r', '\f')
	setCR       = ai.SetOf('\r')
	setLF       = ai.SetOf('\n')
	setDigit    = ai.Range('0', '9')
	setHex      = setDigit.Union(ai.Range('a', 'f')).Union(ai.Range('A', 'F'))
	setStart    = ai.Range('a', 'z').Union(ai.Range('A', 'Z')).Union(ai.SetOf('_')).Union(ai.Range(0x80, maxRune))
	setName     = setStart.Union(setDigit).Union(ai.SetOf('-'))
	setUnprint  = ai.Range(0, 8).Union(ai.SetOf(0x0b, 0x7f)).Union(ai.Range(0x0e, 0x1f))
	setASCII    = ai.Range(0, 127)
	setNonASCII = ai.Range(128, maxRune)
	setLook     = ai.SetOf('\\', '-', '.', '+', 'e', 'E', '\r', '*', '/', '<', '@', '#')
	setSign     = ai.SetOf('+', '-')
)

var fixedTokens = map[rune]string{
	';': "Semicolon", ':': "Colon", ',': "Comma", '(': "LParen", ')': "RParen",
	'[': "LBracket", ']': "RBracket", '{': "LCurly", '}': "RCurly",
}

// lexSpec runs the specification on a state.
type lexSpec struct {
	w     *lexWindow
	st    *ai.State
	force bool
	det   bool // only take steps that are determined, up to the place of the lexer
	place int
	most  int // code points in the window, if forced
	limit int // how many code points of the window it may look at, if positive
}

type needMore struct{}

// at is the code point i behind the position of the specification. -1 is the end.
func (s lexSpec) at(i int) lexCell {
	cells := s.w.cells(s.st)
	pos := s.st.Ghost["s.pos"].(ai.Int)
	k := len(cells)
	for j, c := range cells {
		if c.pos == pos {
			k = j
		}
	}
	k += i
	if s.limit > 0 && k >= s.limit {
		panic(needMore{})
	}
	for k >= len(cells) {
		if n := len(cells); n > 0 && cells[n-1].eof {
			return cells[n-1]
		}
		if !s.force || len(cells) >= s.most {
			panic(needMore{})
		}
		s.w.create(s.st)
		cells = s.w.cells(s.st)
	}
	return cells[k]
}

func (s lexSpec) in(c lexCell, set ai.IntSet) bool {
	if c.newline {
		return set.Contains('\n')
	}
	return !c.eof && s.decide(c.cp, set)
}

func (s lexSpec) decide(x ai.Int, set ai.IntSet) bool {
	if s.det {
		is := s.st.SetOfInt(x)
		if !is.Subset(set) && !is.Intersect(set).Empty() {
			panic(needMore{})
		}
	}
	return s.st.DecideIn(x, set)
}
func (s lexSpec) is(c lexCell, r rune) bool { return s.in(c, ai.SetOf(int64(r))) }

// take consumes the next n code points.
func (s lexSpec) take(n int) {
	for i := 0; i < n; i++ {
		s.st.Ghost["s.pos"] = s.at(0).next
	}
}

// takeOne consumes a code point, or a newline.
func (s lexSpec) takeOne() {
	c := s.at(0)
	if !c.newline && s.in(c, setNL) && s.is(c, '\r') && s.is(s.at(1), '\n') {
		s.take(2)
		return
	}
	s.take(1)
}

func (s lexSpec) mode(format string, args ...interface{}) {
	s.st.Ghost["=mode"] = ai.Tag{S: fmt.Sprintf(format, args...)}
}

// flag is a setting of the lexer.
func (s lexSpec) flag(name string) bool {
	x := s.st.Ghost[name].(ai.Int)
	if set := s.st.SetOfInt(x); !s.force && set.Count(2) > 1 {
		panic(needMore{}) // the lexer has not looked at it yet
	}
	return s.decide(x, ai.SetOf(1))
}
func (s lexSpec) mark(name string) { s.st.Ghost["s."+name] = s.st.Ghost["s.pos"] }
func (s lexSpec) clear() {
	for _, k := range []string{"s.lo", "s.hi", "s.nlo", "s.nhi", "s.namelo", "s.namehi", "=url"} {
		delete(s.st.Ghost, k)
	}
}
func (s lexSpec) done(kind string) { s.mode("done:%s", kind) }
func (s lexSpec) fail(why string)  { s.mode("error:%s", why) }
func (s lexSpec) startNumeral()    { s.mark("nlo") }
func (s lexSpec) endNumeral()      { s.mark("nhi") }
func (s lexSpec) escape(i int) bool {
	return s.all(func() bool { return s.is(s.at(i), '\\') }, func() bool { return !s.in(s.at(i+1), setNL) })
}

// next says whether the next code points are these.
func (s lexSpec) next(text string) bool {
	var fs []func() bool
	for i, r := range text {
		i, r := i, r
		fs = append(fs, func() bool { return s.is(s.at(i), r) })
	}
	return s.all(fs...)
}

// all is the conjunction. It may be determined by any of the conditions.
func (s lexSpec) all(fs ...func() bool) bool {
	open := false
	for _, f := range fs {
		if !s.det {
			if !f() {
				return false
			}
			continue
		}
		v, known := s.try(f)
		if known && !v {
			return false
		}
		open = open || !known
	}
	if open {
		panic(needMore{})
	}
	return true
}

func (s lexSpec) try(f func() bool) (v, known bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(needMore); !ok {
				panic(r)
			}
		}
	}()
	return f(), true
}
func (s lexSpec) identStart(i int) bool {
	escaped := func(i int) func() bool {
		return func() bool { return !s.in(s.at(i), setNL) }
	}
	yes := func() bool { return true }
	return s.cases(s.at(i), []lexCase{
		{setStart, yes},
		{ai.SetOf('\\'), escaped(i + 1)},
		{ai.SetOf('-'), func() bool {
			return s.cases(s.at(i+1), []lexCase{
				{setStart.Union(ai.SetOf('-')), yes},
				{ai.SetOf('\\'), escaped(i + 2)},
			})
		}},
	})
}

type lexCase struct {
	set ai.IntSet
	is  func() bool
}

// cases finds a condition that depends on a code point. It is false for those without a case.
func (s lexSpec) cases(c lexCell, cs []lexCase) bool {
	if c.eof {
		return false
	}
	if !s.det || c.newline {
		for _, k := range cs {
			if s.in(c, k.set) {
				return k.is()
			}
		}
		return false
	}
	var yes, no bool
	rest := s.st.SetOfInt(c.cp)
	for _, k := range cs {
		if rest.Intersect(k.set).Empty() {
			continue
		}
		rest = rest.Minus(k.set)
		v, known := s.try(k.is)
		if !known {
			panic(needMore{})
		}
		yes, no = yes || v, no || !v
	}
	if no = no || !rest.Empty(); yes && no {
		panic(needMore{})
	}
	return yes
}

func (s lexSpec) numberStart(i int) bool {
	c := s.at(i)
	if s.in(c, setSign) {
		i++
		c = s.at(i)
	}
	return s.in(c, setDigit) || s.is(c, '.') && s.in(s.at(i+1), setDigit)
}

func (s lexSpec) delim() {
	s.mark("lo")
	s.take(1)
	s.mark("hi")
	s.done("Delim")
}

// name starts a name that belongs to a token.
func (s lexSpec) name(kind string) {
	s.mark("lo")
	s.mode("name:%s", kind)
}

// run goes on as far as the known code points allow.
func (s lexSpec) run() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(needMore); !ok {
				panic(r)
			}
		}
	}()
	for {
		m := s.st.Ghost["=mode"].(ai.Tag).S
		if m == "idle" || s.over() {
			return
		}
		if s.det && !s.within() {
			return
		}
		s.step(m)
	}
}

// over says whether the token is complete or in error.
func (s lexSpec) over() bool {
	m := s.st.Ghost["=mode"].(ai.Tag).S
	return strings.HasPrefix(m, "done:") || strings.HasPrefix(m, "error:")
}

// within says whether the specification is not yet behind the place of the lexer.
func (s lexSpec) within() bool {
	pos := s.st.Ghost["s.pos"].(ai.Int)
	for i, c := range s.w.cells(s.st) {
		if c.pos == pos {
			return i <= s.place
		}
	}
	return false
}

func (s lexSpec) step(m string) {
	kind, arg, _ := strings.Cut(m, ":")
	switch kind {
	case "begin":
		s.begin()

	case "ws":
		// The lexer may or may not have looked at the setting.
		retain, known := s.try(func() bool { return s.flag("=ws") })
		switch {
		case known && !retain:
			s.clear()
			if s.in(s.at(0), setWS) {
				s.takeOne()
			}
			s.mode("begin")
		case s.in(s.at(0), setWS):
			s.takeOne()
		case s.flag("=ws"):
			s.done("Whitespace")
		}

	case "comment":
		c := s.at(0)
		switch {
		case c.eof:
			s.fail("unclosed comment")
		case s.next("*/"):
			retain := s.flag("=com")
			s.mark("hi")
			s.take(2)
			if retain {
				s.done("Comment")
			} else {
				s.mode("begin")
			}
		default:
			s.takeOne()
		}

	case "str":
		c := s.at(0)
		switch {
		case c.eof:
			s.fail("unclosed string")
		case s.is(c, rune(arg[0])):
			s.mark("hi")
			s.take(1)
			s.done("String")
		case s.in(c, setNL):
			s.fail("newline in a string")
		case s.is(c, '\\'):
			d := s.at(1)
			switch {
			case d.eof:
				s.fail("unclosed string")
			case s.is(d, '\r') && s.is(s.at(2), '\n'):
				s.take(3)
			case s.in(d, setNL):
				s.take(2)
			default:
				s.take(1)
				s.mode("esc:%s", m)
			}
		default:
			s.take(1)
		}

	case "esc": // behind the backslash
		c := s.at(0)
		switch {
		case c.eof:
			s.mode("%s", arg)
		case s.in(c, setHex):
			s.take(1)
			s.mode("hex:1:%s", arg)
		default:
			s.take(1)
			s.mode("%s", arg)
		}

	case "hex":
		c := s.at(0)
		n := int(arg[0] - '0')
		switch {
		case n < 6 && s.in(c, setHex):
			s.take(1)
			s.mode("hex:%d:%s", n+1, arg[2:])
		case s.is(c, '\r') && s.is(s.at(1), '\n'):
			s.take(2)
			s.mode("%s", arg[2:])
		case s.in(c, setWS):
			s.take(1)
			s.mode("%s", arg[2:])
		default:
			s.mode("%s", arg[2:])
		}

	case "num":
		s.number(arg)

	case "name":
		s.inName(arg)

	case "urlws":
		c := s.at(0)
		switch {
		case s.in(c, setWS):
			s.takeOne()
		case s.in(c, ai.SetOf('"', '\'')):
			s.done("FunctionStart")
		default:
			s.mark("lo")
			s.mode("url")
		}

	case "url":
		c := s.at(0)
		switch {
		case c.eof:
			s.fail("unclosed url")
		case s.is(c, ')'):
			s.mark("hi")
			s.take(1)
			s.done("URL")
		case s.in(c, ai.SetOf('"', '\'', '(')):
			s.fail("quote or parenthesis in a url")
		case s.is(c, '\\'):
			if s.escape(0) {
				s.take(1)
				s.mode("esc:url")
			} else {
				s.fail("invalid escape in a url")
			}
		case s.in(c, setUnprint):
			s.fail("non-printable code point in a url")
		default:
			s.takeOne()
		}

	default:
		panic("mode " + m)
	}
}

func (s lexSpec) begin() {
	s.clear()
	s.mark("start")
	c := s.at(0)
	if c.eof {
		s.done("EOF")
		return
	}
	if s.in(c, setWS) {
		s.mode("ws")
		return
	}
	if s.in(c, setDigit) {
		s.startNumeral()
		s.mode("num:0")
		return
	}
	if s.in(c, setStart) {
		s.name("Ident")
		return
	}
	if !s.in(c, ai.SetOf(';', ':', ',', '(', ')', '[', ']', '{', '}', '"', '\'', '#', '+', '-', '.', '<', '@', '\\', '/')) {
		s.delim()
		return
	}
	for _, r := range ";:,()[]{}" {
		if s.is(c, r) {
			s.take(1)
			s.done(fixedTokens[r])
			return
		}
	}
	for _, r := range "\"'" {
		if s.is(c, r) {
			s.take(1)
			s.mark("lo")
			s.mode("str:%c", r)
			return
		}
	}
	switch {
	case s.is(c, '#'):
		if s.in(s.at(1), setName) || s.escape(1) {
			s.take(1)
			s.name("Hash")
			return
		}
	case s.in(c, ai.SetOf('+', '.')):
		if s.numberStart(0) {
			s.startNumeral()
			s.mode("num:s")
			return
		}
	case s.is(c, '-'):
		if s.numberStart(0) {
			s.startNumeral()
			s.mode("num:s")
			return
		}
		if s.next("-->") {
			s.take(3)
			s.done("CDC")
			return
		}
		if s.identStart(0) {
			s.name("Ident")
			return
		}
	case s.is(c, '<'):
		if s.next("<!--") {
			s.take(4)
			s.done("CDO")
			return
		}
	case s.is(c, '@'):
		if s.identStart(1) {
			s.take(1)
			s.name("At")
			return
		}
	case s.is(c, '\\'):
		if !s.escape(0) {
			s.fail("invalid escape")
			return
		}
		s.name("Ident")
		return
	case s.is(c, '/'):
		if s.is(s.at(1), '*') {
			s.take(2)
			s.mark("lo")
			s.mode("comment")
			return
		}
	}
	s.delim()
}

func (s lexSpec) number(sub string) {
	exp := func() bool {
		if !s.in(s.at(0), ai.SetOf('e', 'E')) {
			return false
		}
		d := s.at(1)
		return s.in(d, setDigit) || s.in(d, setSign) && s.in(s.at(2), setDigit)
	}
	takeExp := func() {
		if s.in(s.at(1), setSign) {
			s.take(3)
		} else {
			s.take(2)
		}
		s.mode("num:2")
	}
	c := s.at(0)
	switch sub {
	case "s":
		if s.in(c, setSign) {
			s.take(1)
		}
		s.mode("num:0")
		return
	case "0": // integer part
		switch {
		case s.in(c, setDigit):
			s.take(1)
			return
		case s.is(c, '.') && s.in(s.at(1), setDigit):
			s.take(2)
			s.mode("num:1")
			return
		case exp():
			takeExp()
			return
		}
	case "1": // fraction
		switch {
		case s.in(c, setDigit):
			s.take(1)
			return
		case exp():
			takeExp()
			return
		}
	case "2": // exponent
		if s.in(c, setDigit) {
			s.take(1)
			return
		}
	}
	// Find out what follows before anything is changed: this step may be tried again.
	dim := s.identStart(0)
	percent := !dim && s.is(c, '%')
	s.endNumeral()
	switch {
	case dim:
		s.name("Dimension")
	case percent:
		s.take(1)
		s.done("Percentage")
	default:
		s.done("Number")
	}
}

// inName is inside of a name.
func (s lexSpec) inName(kind string) {
	if s.in(s.at(0), setName) {
		s.take(1)
		return
	}
	if s.escape(0) {
		s.take(1)
		s.mode("esc:name:%s", kind)
		return
	}
	if kind != "Ident" {
		s.mark("hi")
		s.done(kind)
		return
	}
	s.mark("hi")
	s.st.Ghost["s.namelo"], s.st.Ghost["s.namehi"] = s.st.Ghost["s.lo"], s.st.Ghost["s.hi"]
	switch {
	case !s.is(s.at(0), '('):
		s.done("Ident")
	case s.url():
		s.take(1)
		s.mode("urlws")
	default:
		s.take(1)
		s.done("FunctionStart")
	}
}

// url says whether the name that has just been read is url. What its code points were does not
// matter: it is found out at the first look at the text of the name.
func (s lexSpec) url() bool {
	u, ok := s.st.Ghost["=url"].(ai.Int)
	if !ok {
		if s.det {
			panic(needMore{})
		}
		u = s.st.NewInt("url", ai.Range(0, 1))
		s.st.Ghost["=url"] = u
	}
	return s.decide(u, ai.SetOf(1))
}

// looks says whether what the specification does next depends on more than the next code point.
func (s lexSpec) looks(c lexCell) bool {
	var on ai.IntSet
	switch m, _, _ := strings.Cut(s.st.Ghost["=mode"].(ai.Tag).S, ":"); m {
	case "name", "str":
		on = ai.SetOf('\\')
	case "url":
		on = ai.SetOf('\\', '\r')
	case "ws", "hex", "urlws":
		on = ai.SetOf('\r')
	case "comment":
		on = ai.SetOf('*', '\r')
	case "num":
		on = ai.SetOf('.', 'e', 'E', '+', '-', '\\')
	case "done":
		on = setLook // it may have looked ahead to find out that it is over
	case "esc":
	default:
		return true
	}
	return !c.eof && !c.newline && !s.st.SetOfInt(c.cp).Intersect(on).Empty()
}

// sure says whether a code point alone says what the specification does with it.
func (s lexSpec) sure(c lexCell) bool {
	if c.eof || c.newline {
		return false
	}
	m, _, _ := strings.Cut(s.st.Ghost["=mode"].(ai.Tag).S, ":")
	return m == "name" && s.st.SetOfInt(c.cp).Subset(setStart.Minus(ai.SetOf('e', 'E')))
}
