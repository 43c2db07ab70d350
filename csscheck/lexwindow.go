package main

import (
	"go/types"
	"math"
	"sort"

	"csscheck/ai"
)

// lexWindow keeps what a state knows about a source text: the code points around the place
// where the lexer is. Positions are symbols with offsets; positions that are behind are only
// kept with their order.
type lexWindow struct {
	newlines  bool // tell newlines from other code points at once
	created   int
	collapses bool // forget which newline it was
	onCreate  func(st *ai.State)
	known     func(st *ai.State, more []ai.Value) int // the last code point that is in use
}

type lexCell struct {
	pos, cp, size, next ai.Int
	eof                 bool
	newline             bool // one of the newlines, of which only that is kept
}

// cpNewline stands for any newline that the lexer is done with.
const cpNewline = -2

const posLabel = "pos"

func (w *lexWindow) cells(st *ai.State) []lexCell {
	t, _ := st.Ghost["cells"].(ai.TupleV)
	var out []lexCell
	for _, v := range t.V {
		f := v.(ai.TupleV).V
		c := lexCell{pos: f[0].(ai.Int), cp: f[1].(ai.Int), size: f[2].(ai.Int), next: f[3].(ai.Int)}
		c.eof, c.newline = c.cp == ai.K(-1), c.cp == ai.K(cpNewline)
		out = append(out, c)
	}
	return out
}

func (w *lexWindow) setCells(st *ai.State, cs []lexCell) {
	var t ai.TupleV
	for _, c := range cs {
		t.V = append(t.V, ai.TupleV{V: []ai.Value{c.pos, c.cp, c.size, c.next}})
	}
	st.Ghost["cells"] = t
}

// start is the state of a text of which nothing is known.
func (w *lexWindow) start(st *ai.State) ai.Str {
	content := st.NewSym(ai.SymInfo{T: stringType, Label: "content"})
	st.Ghost["content"] = ai.SymStr(content)
	st.StrLen(ai.SymStr(content))
	st.Ghost["front"] = ai.K(0)
	w.setCells(st, nil)
	return ai.SymStr(content)
}

func (w *lexWindow) contentLen(st *ai.State) ai.Int {
	return st.StrLen(st.Ghost["content"].(ai.Str))
}

// create decodes the next code point.
func (w *lexWindow) create(st *ai.State) {
	cells := w.cells(st)
	pos := st.Ghost["front"].(ai.Int)
	first := pos == ai.K(0)
	n := 3
	if w.newlines {
		n = 6
	}
	add := func(s *ai.State, cp, size, next ai.Int) {
		w.setCells(s, append(append([]lexCell(nil), cells...), lexCell{pos: pos, cp: cp, size: size, next: next}))
		s.Ghost["front"] = next
	}
	ascii := func(s *ai.State, set ai.IntSet) bool {
		size := ai.K(1)
		next := pos.Add(1)
		if first {
			// Positions get a base.
			next = s.NewInt(posLabel, ai.Range(1, math.MaxInt64))
			size = next
		}
		if !s.AssumeLess(next, w.contentLen(s), true) {
			return false
		}
		cp := s.NewInt("cp", set)
		add(s, cp, size, next)
		return true
	}
	st.Choose(n, func(s *ai.State, i int) bool {
		switch i {
		case 0:
			if !s.AssumeEqual(pos, w.contentLen(s), true) {
				return false
			}
			add(s, ai.K(-1), ai.K(0), pos)
			return true
		case 1:
			var size, next ai.Int
			if first {
				next = s.NewInt(posLabel, ai.Range(1, math.MaxInt64))
				size = next
			} else {
				size = s.NewInt("size", ai.Range(1, 4))
				next = s.NewInt(posLabel, ai.Range(0, math.MaxInt64))
				if !s.AssumeLess(pos, next, false) || !s.AssumeLess(next, pos.Add(4), true) {
					return false
				}
			}
			if !s.AssumeLess(next, w.contentLen(s), true) {
				return false
			}
			add(s, s.NewInt("cp", setNonASCII), size, next)
			return true
		case 2:
			if !w.newlines {
				return ascii(s, setASCII)
			}
			return ascii(s, setASCII.Minus(setNL))
		case 3:
			return ascii(s, ai.SetOf('\n'))
		case 4:
			return ascii(s, ai.SetOf('\r'))
		default:
			return ascii(s, ai.SetOf('\f'))
		}
	})
	w.created++
	st.Progress()
	if w.onCreate != nil {
		w.onCreate(st)
	}
}

// ended adds the end of the text, if the lexer knows that it is next.
func (w *lexWindow) ended(st *ai.State) {
	cells := w.cells(st)
	if n := len(cells); n > 0 && cells[n-1].eof {
		return
	}
	if pos := st.Ghost["front"].(ai.Int); st.Equal(pos, w.contentLen(st)) == ai.Yes {
		w.setCells(st, append(append([]lexCell(nil), cells...), lexCell{pos: pos, cp: ai.K(-1), size: ai.K(0), next: pos, eof: true}))
	}
}

// find is the index of the code point at a position, decoding up to it; -1 if it is not known.
func (w *lexWindow) find(st *ai.State, pos ai.Int) int {
	pos = st.ResInt(pos)
	for try := 0; try < 6; try++ {
		cells := w.cells(st)
		if len(cells) > 0 && pos.IsConst() && pos.Off > 0 && cells[0].pos == ai.K(0) && !cells[0].eof && !cells[0].next.IsConst() {
			// The size of the first code point matters after all.
			if st.SetOfInt(cells[0].cp).Subset(setASCII) {
				st.AssumeEqual(cells[0].next, ai.K(1), true)
			} else {
				next := cells[0].next
				st.Choose(4, func(s *ai.State, i int) bool { return s.AssumeEqual(next, ai.K(int64(i+1)), true) })
			}
		}
		for i, c := range cells {
			if st.Equal(c.pos, pos) == ai.Yes {
				return i
			}
		}
		if n := len(cells); n > 0 && cells[n-1].eof {
			return -1
		}
		if st.Less(pos, st.Ghost["front"].(ai.Int), false) == ai.Yes {
			// Behind, or in the middle of a code point.
			return -1
		}
		w.create(st)
	}
	return -1
}

// decode models utf8.DecodeRuneInString(content[pos:]).
func (w *lexWindow) decode(st *ai.State, pos ai.Int) ai.Value {
	i := w.find(st, pos)
	if i < 0 {
		cp := st.NewInt("rune", ai.Range(0, maxRune))
		return ai.TupleV{V: []ai.Value{cp, st.NewInt("size", ai.Range(0, 4))}}
	}
	c := w.cells(st)[i]
	if c.eof {
		return ai.TupleV{V: []ai.Value{ai.K(0xfffd), ai.K(0)}}
	}
	if c.newline {
		return ai.TupleV{V: []ai.Value{st.NewInt("rune", setNL), st.NewInt("size", ai.Range(1, 1))}}
	}
	return ai.TupleV{V: []ai.Value{c.cp, c.size}}
}

// position returns the position of content[pos:].
func (w *lexWindow) position(st *ai.State, v ai.Value) (ai.Int, bool) {
	s, ok := v.(ai.Str)
	if !ok {
		return ai.Int{}, false
	}
	content := st.Ghost["content"].(ai.Str).Single()
	sym := st.ResStr(s).Single()
	if sym == content && sym != 0 {
		return ai.K(0), true
	}
	if sym == 0 {
		return ai.Int{}, false
	}
	d := st.Info(sym).Def
	if d == nil || d.Op != "substr" || len(d.Args) != 2 || d.Args[0].(ai.Str).Single() != content {
		return ai.Int{}, false
	}
	return st.ResInt(d.Args[1].(ai.Int)), true
}

// part returns the bounds of a part of the text.
func (w *lexWindow) part(st *ai.State, v ai.Value) (lo, hi ai.Int, ok bool) {
	s, isStr := v.(ai.Str)
	if !isStr {
		return
	}
	content := st.Ghost["content"].(ai.Str).Single()
	sym := s.Single()
	if sym == 0 {
		return
	}
	if sym == content {
		return ai.K(0), w.contentLen(st), true
	}
	d := st.Info(sym).Def
	if d == nil || d.Op != "substr" || d.Args[0].(ai.Str).Single() != content {
		return
	}
	lo = st.ResInt(d.Args[1].(ai.Int))
	if len(d.Args) == 2 {
		return lo, w.contentLen(st), true
	}
	return lo, st.ResInt(d.Args[2].(ai.Int)), true
}

// sum knows what the sizes of code points add up to.
func (w *lexWindow) sum(st *ai.State, a, b ai.Int) (ai.Int, bool) {
	for _, c := range w.cells(st) {
		if c.size.Base == 0 {
			continue
		}
		for _, p := range [][2]ai.Int{{a, b}, {b, a}} {
			// pos+x + size+y
			if p[1].Base == c.size.Base && p[0].Base == c.pos.Base {
				return c.next.Add(p[0].Off - c.pos.Off + p[1].Off - c.size.Off), true
			}
		}
	}
	return ai.Int{}, false
}

// index is that of the code point at a position.
func (w *lexWindow) index(st *ai.State, cells []lexCell, i ai.Int) (int, bool) {
	for k, c := range cells {
		if c.pos == i {
			return k, true
		}
	}
	if i == st.Ghost["front"].(ai.Int) {
		return len(cells), true
	}
	return 0, false
}

// from is the place where the lexer is: the code point before the last position in use.
func (w *lexWindow) from(st *ai.State, more []ai.Value) int {
	cells := w.cells(st)
	from := 0
	for _, i := range st.Ints(more) {
		if k, ok := w.index(st, cells, i); ok && k > from {
			from = k
		}
	}
	if from > 0 && !(from < len(cells) && cells[from].eof) {
		from--
	}
	return from
}

// collapse forgets which newline the lexer has just read, and what is behind it. at is the index of
// the last code point that it has read.
func (w *lexWindow) collapse(st *ai.State, at int, used []ai.Int, known int) {
	cells := w.cells(st)
	if at >= len(cells) || cells[at].eof || !st.SetOfInt(cells[at].cp).Subset(setNL) {
		return
	}
	isUsed := func(n int) bool {
		if p, ok := st.Ghost["s.pos"].(ai.Int); ok {
			used = append(used, p)
		}
		for _, p := range used {
			if k, ok := w.index(st, cells, p); ok && k == n {
				return true
			}
		}
		return false
	}
	first, last := at, at
	if n := at + 1; st.SetOfInt(cells[at].cp).Contains('\r') {
		switch {
		case n == len(cells):
			return // a line feed may follow
		case cells[n].eof || !st.SetOfInt(cells[n].cp).Contains('\n'):
		case st.SetOfInt(cells[n].cp).Subset(setLF) && !isUsed(n):
			last = n
		default:
			return
		}
	} else if at > 0 && !cells[at-1].eof && st.SetOfInt(cells[at-1].cp).Contains('\r') {
		if !st.SetOfInt(cells[at-1].cp).Subset(setCR) || !st.SetOfInt(cells[at].cp).Subset(setLF) || isUsed(at) {
			return
		}
		first = at - 1
	}
	if p, ok := st.Ghost["s.pos"].(ai.Int); ok {
		if k, ok := w.index(st, cells, p); ok && k > last+1 {
			return
		}
	}
	if known > last {
		return
	}
	nl := lexCell{pos: cells[first].pos, cp: ai.K(cpNewline), size: ai.K(0), next: cells[last].next}
	w.truncate(st, append(append([]lexCell(nil), cells[:first]...), nl), first)
}

// truncate forgets what follows a code point.
func (w *lexWindow) truncate(st *ai.State, cells []lexCell, last int) {
	w.setCells(st, cells[:last+1])
	st.Ghost["front"] = cells[last].next
	L := w.contentLen(st)
	var rels []ai.Rel
	for _, r := range st.Rels() {
		if r.A != L.Base {
			rels = append(rels, r)
		}
	}
	st.SetRels(rels)
}

// compact forgets the code points that are behind, and renames positions.
func (w *lexWindow) compact(st *ai.State, extra []string, more []ai.Value, rename bool) {
	if st.Ghost["content"] == nil {
		return // within a function of scalars
	}
	cells := w.cells(st)
	isPos := func(i ai.Int) bool { return i.Base != 0 && st.Info(i.Base).Label == posLabel }
	// One name for each position of the window.
	same := map[ai.Int]ai.Int{}
	for _, c := range cells {
		same[c.pos] = c.pos
		same[c.next] = c.next
	}
	st.Substitute(func(i ai.Int) ai.Int {
		if n, ok := same[i]; ok {
			return n
		}
		n := i
		if isPos(i) {
			for _, c := range cells {
				if c.pos.Base != i.Base && isPos(c.pos) && st.Equal(c.pos, i) == ai.Yes {
					n = c.pos
					break
				}
			}
		}
		same[i] = n
		return n
	}, more)
	cells = w.cells(st)
	index := func(i ai.Int) (int, bool) { return w.index(st, cells, i) }
	from := w.from(st, more)
	if p, ok := st.Ghost["s.pos"].(ai.Int); ok {
		if k, ok := index(p); ok && k < from {
			from = k
		}
	}
	if w.collapses {
		w.collapse(st, w.from(st, more), st.Ints(more), w.known(st, more))
		cells = w.cells(st)
	}
	if len(cells)-from > 12 {
		st.M.Report("window", "%s: the lexer reads more than 12 code points ahead of the end of the token", st.Where())
		st.Infeasible()
	}
	cells = cells[from:]
	w.setCells(st, cells)
	front := st.Ghost["front"].(ai.Int)
	lo := front
	if len(cells) > 0 {
		lo = cells[0].pos
	}

	// Positions in use, apart from the window.
	all := append([]ai.Value(nil), more...)
	for _, k := range extra {
		if v, ok := st.Ghost[k]; ok {
			all = append(all, v)
		}
	}
	inWindow := func(i ai.Int) bool {
		if _, ok := index(i); ok {
			return true
		}
		for _, c := range append([]lexCell{{pos: front}}, cells...) {
			if c.pos.Base == i.Base && i.Off >= lo.Off && c.pos.Base == lo.Base {
				return true
			}
			if c.pos.Base == i.Base && c.pos.Base != lo.Base {
				return true
			}
		}
		return false
	}
	old := map[ai.Int]ai.Int{}
	var olds []ai.Int
	for _, i := range st.Ints(all) {
		if isPos(i) && !inWindow(i) {
			if _, ok := old[i]; !ok {
				old[i] = ai.Int{}
				olds = append(olds, i)
			}
		}
	}
	sort.Slice(olds, func(a, b int) bool {
		if olds[a].Base != olds[b].Base {
			return olds[a].Base < olds[b].Base
		}
		return olds[a].Off < olds[b].Off
	})
	newBase := ai.Int{}
	before := append([]ai.Rel(nil), st.Rels()...)
	if rename && isPos(lo) && lo.Off != 0 {
		newBase = st.NewInt(posLabel, ai.Range(0, math.MaxInt64))
	}
	for _, o := range olds {
		if !rename || o.Off == 0 && !(newBase.Base == 0 && lo.Base == o.Base) {
			old[o] = o
			continue
		}
		old[o] = st.NewInt(posLabel, ai.Range(0, math.MaxInt64))
	}
	subst := func(i ai.Int) ai.Int {
		if i.Base == 0 {
			return i
		}
		if n, ok := old[i]; ok {
			return n
		}
		if newBase.Base != 0 && i.Base == lo.Base && i.Off >= lo.Off {
			return newBase.Add(i.Off - lo.Off)
		}
		return i
	}
	// The order of what is left, before it is renamed.
	L := w.contentLen(st)
	type point struct{ was, is ai.Int }
	var pts []point
	seen := map[ai.Int]bool{}
	addPt := func(was ai.Int) {
		is := subst(was)
		if !seen[is] {
			seen[is] = true
			pts = append(pts, point{was, is})
		}
	}
	for _, o := range olds {
		addPt(o)
	}
	inBase := map[ai.Sym]bool{}
	for k := 1; k < st.Syms(); k++ {
		if s := ai.Sym(k); st.Pinned(s) && st.Info(s) != nil && st.Info(s).Label == posLabel {
			pts = append(pts, point{ai.Int{Base: s}, ai.Int{Base: s}})
			seen[ai.Int{Base: s}] = true
		}
	}
	addPt(lo)
	inBase[lo.Base] = true
	for _, c := range cells {
		if !inBase[c.next.Base] {
			inBase[c.next.Base] = true
			addPt(c.next)
		}
	}
	if L.Base != 0 {
		addPt(L)
	}
	var rels []ai.Rel
	for _, a := range pts {
		for _, b := range pts {
			if a == b || a.is.Base == b.is.Base {
				continue
			}
			c := int64(1)
			switch {
			case st.Less(a.was, b.was, false) == ai.Yes:
				c = -1
			case st.Less(a.was, b.was, true) == ai.Yes:
				c = 0
			}
			if c == 1 {
				continue
			}
			// a.is + .. <= b.is + .. + c
			rels = append(rels, ai.Rel{A: a.is.Base, B: b.is.Base, C: c + b.is.Off - a.is.Off})
		}
	}
	// Within the window, distances are exact.
	for _, r := range before {
		if st.Info(r.A).Label != posLabel && st.Info(r.B).Label != posLabel {
			rels = append(rels, r)
		}
	}
	end := subst(front)
	st.Substitute(subst, more)
	st.SetRels(nil)
	// What is kept of a position from before this call, whatever its name.
	for _, s := range []ai.Sym{L.Base} {
		if s != 0 {
			st.Update(s, func(i *ai.SymInfo) { i.Set = ai.Range(0, math.MaxInt64) })
		}
	}
	for k := 1; k < st.Syms(); k++ {
		if si := st.Info(ai.Sym(k)); si != nil && si.Label == posLabel && si.T == types.Typ[types.Int] && !st.Pinned(ai.Sym(k)) {
			st.Update(ai.Sym(k), func(i *ai.SymInfo) { i.Set = ai.Range(0, math.MaxInt64) })
		}
	}
	for _, r := range rels {
		if r.A != 0 && r.B != 0 {
			st.AddRel(r.A, r.B, r.C)
		} else if r.A == 0 {
			// -B <= C
			st.RefineSet(ai.Int{Base: r.B}, ai.Range(-r.C, math.MaxInt64))
		}
	}
	for _, c := range cells {
		if c.eof {
			st.AssumeEqual(subst(c.pos), L, true)
			continue
		}
		if c.pos.Base != c.next.Base {
			st.AssumeLess(subst(c.pos), subst(c.next), false)
			st.AssumeLess(subst(c.next), subst(c.pos).Add(4), true)
		}
	}
	st.AssumeLess(end, L, true)
	// Only the order of positions counts.
	if L.Base != 0 {
		st.Update(L.Base, func(i *ai.SymInfo) { i.Set = ai.Range(0, math.MaxInt64) })
	}
	for k := 1; k < st.Syms(); k++ {
		if si := st.Info(ai.Sym(k)); si != nil && si.Label == posLabel {
			st.Update(ai.Sym(k), func(i *ai.SymInfo) { i.Set = ai.Range(0, math.MaxInt64) })
		}
	}
}

// clip keeps only the order of positions behind the window.
func (w *lexWindow) clip(st *ai.State) {
	if st.Ghost["content"] == nil {
		return
	}
	ahead := map[ai.Sym]bool{w.contentLen(st).Base: true}
	for _, c := range w.cells(st) {
		ahead[c.pos.Base], ahead[c.next.Base] = true, true
	}
	ahead[st.Ghost["front"].(ai.Int).Base] = true
	rels := append([]ai.Rel(nil), st.Rels()...)
	for i, r := range rels {
		if ahead[r.A] && ahead[r.B] || st.Info(r.A).Label != posLabel {
			continue
		}
		if r.C < -1 {
			rels[i].C = -1
		}
	}
	st.SetRels(rels)
	for k := 1; k < st.Syms(); k++ {
		if si := st.Info(ai.Sym(k)); si != nil && (si.Label == posLabel || ai.Sym(k) == w.contentLen(st).Base) {
			st.Update(ai.Sym(k), func(i *ai.SymInfo) { i.Set = ai.Range(0, math.MaxInt64) })
		}
	}
}
