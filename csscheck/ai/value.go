// Package ai is a path-sensitive abstract interpreter for programs in SSA form.
//
// It computes, by tabulation to a fixpoint, the set of abstract states that reach each
// point of each function, starting from a symbolic entry state. Abstract values are
// constants, symbols with facts (sets of integers, dynamic types, nilness, known and
// excluded strings), pointers into an abstract heap, and terms of pure operations.
// Functions are summarised per abstract entry state; recursion is a fixpoint over
// these summaries; loops are fixpoints over canonical states at loop heads.
package ai

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sym identifies a symbol of a state. 0 is no symbol.
type Sym int32

// ObjID identifies a heap object of a state. 0 is no object.
type ObjID int32

// Value is an abstract value.
type Value interface{}

// Int is Base+Off (Base 0: the constant Off). Booleans are 0 and 1.
type Int struct {
	Base Sym
	Off  int64
}

// Str is a concatenation of literals and symbols, in normal form.
type Str struct{ P []StrPart }

// StrPart is a literal or a symbol.
type StrPart struct {
	Lit string
	Sym Sym
}

// SymV is a symbol of a type other than integers and strings.
type SymV struct{ S Sym }

// Top is an unknown value without identity.
type Top struct{}

// Nil is a nil pointer, slice, map, function, interface or channel.
type Nil struct{}

// Ptr is the address of a part of an object.
type Ptr struct {
	Obj  ObjID
	Path []Sel
}

// Sel selects a field (or constant array index) or a list element.
type Sel struct {
	Field int
	Idx   Int
	Elem  bool
}

// StructV is a struct or an array of constant length.
type StructV struct{ F []Value }

// Iface is an interface value of known dynamic type.
type Iface struct {
	T types.Type
	V Value
}

// FuncV is a function with the values of its free variables.
type FuncV struct {
	Fn *ssa.Function
	B  []Value
	// Native names a function that a client models.
	Native string
}

// SliceV is a part of a list object.
type SliceV struct {
	Obj     ObjID
	Lo, Len Int
	Full    bool // the capacity is known to end with the slice
	Whole   bool // all of a fresh list; Lo and Len are not used
}

// TupleV is a multiple result.
type TupleV struct{ V []Value }

// Tag is a constant that only clients interpret.
type Tag struct{ S string }

// IterV is the iterator of a range over a string or map.
type IterV struct {
	X     Value
	Count int // into a constant string
	Pos   Int // into another string
}

// Bool makes a constant boolean.
func Bool(b bool) Int {
	if b {
		return Int{Off: 1}
	}
	return Int{}
}

// K makes a constant integer.
func K(n int64) Int { return Int{Off: n} }

// Lit makes a constant string.
func Lit(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{P: []StrPart{{Lit: s}}}
}

// SymStr makes a string that is a single symbol.
func SymStr(s Sym) Str { return Str{P: []StrPart{{Sym: s}}} }

// Const returns the value of a constant string.
func (s Str) Const() (string, bool) {
	switch len(s.P) {
	case 0:
		return "", true
	case 1:
		if s.P[0].Sym == 0 {
			return s.P[0].Lit, true
		}
	}
	return "", false
}

// Single returns the symbol of a string that is just a symbol.
func (s Str) Single() Sym {
	if len(s.P) == 1 {
		return s.P[0].Sym
	}
	return 0
}

// Concat joins strings.
func Concat(ss ...Str) Str {
	var out []StrPart
	for _, s := range ss {
		for _, p := range s.P {
			if p.Sym == 0 && len(out) > 0 && out[len(out)-1].Sym == 0 {
				out[len(out)-1] = StrPart{Lit: out[len(out)-1].Lit + p.Lit}
				continue
			}
			out = append(out, p)
		}
	}
	return Str{P: out}
}

// IsConst returns whether the integer is constant.
func (i Int) IsConst() bool { return i.Base == 0 }

// Add adds a constant.
func (i Int) Add(n int64) Int { return Int{i.Base, i.Off + n} }

// ---- sets of integers

const (
	minInt = math.MinInt64
	maxInt = math.MaxInt64
)

// IntSet is a sorted list of disjoint, non-adjacent intervals. nil means all integers.
type IntSet []Interval

// Interval is inclusive.
type Interval struct{ Lo, Hi int64 }

// AllInts is the set of all integers.
var AllInts = IntSet{{minInt, maxInt}}

// Range is an interval as a set.
func Range(lo, hi int64) IntSet { return IntSet{{lo, hi}} }

// SetOf makes a set of single values.
func SetOf(vs ...int64) IntSet {
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	var out IntSet
	for _, v := range vs {
		out = out.add(Interval{v, v})
	}
	return out
}

func (s IntSet) add(iv Interval) IntSet {
	if n := len(s); n > 0 && s[n-1].Hi != maxInt && iv.Lo <= s[n-1].Hi+1 {
		if iv.Hi > s[n-1].Hi {
			s[n-1].Hi = iv.Hi
		}
		return s
	} else if n > 0 && s[n-1].Hi == maxInt {
		return s
	}
	return append(s, iv)
}

// Union of two sets.
func (s IntSet) Union(t IntSet) IntSet {
	var all []Interval
	all = append(all, s...)
	all = append(all, t...)
	sort.Slice(all, func(i, j int) bool { return all[i].Lo < all[j].Lo })
	var out IntSet
	for _, iv := range all {
		out = out.add(iv)
	}
	return out
}

// Intersect of two sets.
func (s IntSet) Intersect(t IntSet) IntSet {
	var out IntSet
	for _, a := range s {
		for _, b := range t {
			lo, hi := max(a.Lo, b.Lo), min(a.Hi, b.Hi)
			if lo <= hi {
				out = append(out, Interval{lo, hi})
			}
		}
	}
	return out
}

// Minus removes a value.
func (s IntSet) Minus(t IntSet) IntSet {
	out := s
	for _, b := range t {
		var comp IntSet
		if b.Lo != minInt {
			comp = append(comp, Interval{minInt, b.Lo - 1})
		}
		if b.Hi != maxInt {
			comp = append(comp, Interval{b.Hi + 1, maxInt})
		}
		out = out.Intersect(comp)
	}
	return out
}

// Empty says whether the set has no members.
func (s IntSet) Empty() bool { return len(s) == 0 }

// Contains says whether n is in the set.
func (s IntSet) Contains(n int64) bool {
	for _, iv := range s {
		if iv.Lo <= n && n <= iv.Hi {
			return true
		}
	}
	return false
}

// Single returns the only member.
func (s IntSet) Single() (int64, bool) {
	if len(s) == 1 && s[0].Lo == s[0].Hi {
		return s[0].Lo, true
	}
	return 0, false
}

// Subset of another set.
func (s IntSet) Subset(t IntSet) bool { return s.Minus(t).Empty() }

// Shift adds n to all members.
func (s IntSet) Shift(n int64) IntSet {
	var out IntSet
	for _, iv := range s {
		lo, hi := iv.Lo, iv.Hi
		if lo != minInt {
			lo += n
		}
		if hi != maxInt {
			hi += n
		}
		out = append(out, Interval{lo, hi})
	}
	return out
}

// Bounds are the least and greatest member.
func (s IntSet) Bounds() (int64, int64) {
	if len(s) == 0 {
		return maxInt, minInt
	}
	return s[0].Lo, s[len(s)-1].Hi
}

// Count is the number of members, at most limit.
func (s IntSet) Count(limit int64) int64 {
	var n int64
	for _, iv := range s {
		if iv.Lo == minInt || iv.Hi == maxInt || iv.Hi-iv.Lo >= limit {
			return limit
		}
		n += iv.Hi - iv.Lo + 1
		if n >= limit {
			return limit
		}
	}
	return n
}

func (s IntSet) String() string {
	var b strings.Builder
	for i, iv := range s {
		if i > 0 {
			b.WriteByte(',')
		}
		switch {
		case iv.Lo == iv.Hi:
			fmt.Fprintf(&b, "%d", iv.Lo)
		case iv.Lo == minInt && iv.Hi == maxInt:
			b.WriteString("*")
		case iv.Lo == minInt:
			fmt.Fprintf(&b, "..%d", iv.Hi)
		case iv.Hi == maxInt:
			fmt.Fprintf(&b, "%d..", iv.Lo)
		default:
			fmt.Fprintf(&b, "%d..%d", iv.Lo, iv.Hi)
		}
	}
	return b.String()
}

// ---- symbols

// Tri is a truth value that may be unknown.
type Tri int8

const (
	Unknown Tri = iota
	Yes
	No
)

// Term is a pure operation applied to values.
type Term struct {
	Op   string
	Args []Value
}

// SymInfo is what is known about a symbol. It is immutable once in a state.
type SymInfo struct {
	T types.Type

	Set IntSet // integers and booleans; nil: all

	Nil    Tri
	Dyn    types.Type   // the dynamic type of an interface
	NotDyn []types.Type // excluded dynamic types
	Inner  Value        // the value in an interface of known dynamic type
	Obj    ObjID        // the object behind a pointer, slice or map
	Len    *Int         // the length of a slice or string

	Eq     *string
	Is     *Str // the text that it is the same as
	Ne     []string
	Pre    string   // known prefix
	NotPre []string // excluded prefixes

	Def *Term

	// Label and Data belong to the client. Data must be comparable.
	Label string
	Data  interface{}
	// Flags are monotone facts of the client.
	Flags uint32
}

func (i *SymInfo) clone() *SymInfo {
	c := *i
	return &c
}

// IntSetOf is the set of an integer symbol.
func (i *SymInfo) IntSetOf() IntSet {
	if i.Set == nil {
		return AllInts
	}
	return i.Set
}

// Rel is A - B <= C.
type Rel struct {
	A, B Sym
	C    int64
}

// ---- objects

// Obj is a heap object. It is immutable once in a state.
type Obj struct {
	Kind ObjKind
	T    types.Type // type of the cell, or element type of the list, or the map type

	V Value // cells

	// Lists: the known part of the contents.
	Segs []Seg // the contents in order (fresh lists)
	Len  Int
	// Elems are the elements known by index (input lists).
	Elems []Elem

	// Ext is the list that an append to this list made, if it may share memory.
	Ext ObjID

	// Src is the pointer symbol with a meaning that this input is behind, if any.
	Src Sym

	// Maps: known entries.
	Entries []Entry
	// Other says that there may be further entries.
	Other bool

	Input bool // belongs to the input of the analysed program
	Label string
	Data  interface{} // comparable, of the client
	Flags uint32
}

// ObjKind is the kind of an object.
type ObjKind int8

const (
	Cell ObjKind = iota
	List
	Map
)

// Seg is a part of a list: a single element, or the elements Lo..Hi of another list
// (possibly changed as Tag says), or any number of unknown elements.
type Seg struct {
	Elem Value // single element
	Of   ObjID // elements of a list
	Lo   Int
	Hi   Int
	Tag  string
	Rest bool // unknown elements
	Min  int
}

// IsElem says whether the segment is a single element.
func (s Seg) IsElem() bool { return s.Of == 0 && !s.Rest }

// Elem is an element of an input list.
type Elem struct {
	Idx Int
	V   Value
}

// Entry is an entry of a map.
type Entry struct{ K, V Value }

func (o *Obj) clone() *Obj {
	c := *o
	return &c
}
