package ai

import (
	"go/types"
	"strings"
)

// standard models functions of the standard library that only compute.
func (m *Machine) standard(st *State, c *Call) (Value, bool) {
	str := func(i int) Str {
		switch s := st.Resolve(c.Args[i]).(type) {
		case Str:
			return s
		case Nil:
			return Str{}
		}
		return SymStr(st.NewSym(SymInfo{T: types.Typ[types.String], Label: "text"}))
	}
	lit := func(i int) (string, bool) {
		s, ok := st.Resolve(c.Args[i]).(Str)
		if !ok {
			return "", false
		}
		return s.Const()
	}
	pure := func(op string, set IntSet) Value {
		var t types.Type
		res := c.Fn.Signature.Results()
		if res.Len() == 1 {
			t = res.At(0).Type()
		} else {
			st.Undecided("pure function with several results")
		}
		for _, a := range c.Args {
			if containsTop(a) {
				return st.Unknown(t, op)
			}
		}
		d := st.NewDef(t, op, c.Args...)
		if set != nil && st.syms[d].Set == nil {
			st.Update(d, func(i *SymInfo) { i.Set = set })
		}
		b, ok := t.Underlying().(*types.Basic)
		switch {
		case ok && b.Info()&types.IsString != 0:
			return SymStr(d)
		case ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return Int{Base: d}
		}
		return SymV{d}
	}
	fact := func(op string) Value {
		args := append([]Value{Tag{op}}, c.Args...)
		for _, a := range args {
			if containsTop(a) {
				return Top{}
			}
		}
		d := st.NewDef(types.Typ[types.Bool], "fact", args...)
		if st.syms[d].Set == nil {
			st.Update(d, func(i *SymInfo) { i.Set = Range(0, 1) })
		}
		return Int{Base: d}
	}
	switch c.Name {
	case "strings.HasPrefix":
		if l, ok := lit(1); ok {
			return Bool(st.DecidePrefix(str(0), l)), true
		}
		return fact(c.Name), true
	case "strings.TrimPrefix":
		if l, ok := lit(1); ok {
			s := str(0)
			if !st.DecidePrefix(s, l) {
				return s, true
			}
			return st.StrSlice(s, K(int64(len(l))), nil), true
		}
		return pure(c.Name, nil), true
	case "strings.HasSuffix", "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		a, aok := lit(0)
		b, bok := lit(1)
		if aok && bok {
			switch c.Name {
			case "strings.HasSuffix":
				return Bool(strings.HasSuffix(a, b)), true
			case "strings.Contains":
				return Bool(strings.Contains(a, b)), true
			case "strings.ContainsAny":
				return Bool(strings.ContainsAny(a, b)), true
			}
		}
		if c.Name == "strings.ContainsRune" && aok {
			if r, ok := st.Resolve(c.Args[1]).(Int); ok {
				var set IntSet
				for _, x := range a {
					set = set.Union(Range(int64(x), int64(x)))
				}
				return Bool(st.DecideIn(r, set)), true
			}
		}
		return fact(c.Name), true
	case "strings.EqualFold":
		a, aok := lit(0)
		b, bok := lit(1)
		if aok && bok {
			return Bool(strings.EqualFold(a, b)), true
		}
		return fact(c.Name), true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Repeat", "strings.ReplaceAll", "strings.Trim", "strings.TrimRight", "strings.TrimLeft",
		"strings.TrimSuffix", "strings.Replace", "strings.Title":
		if a, ok := lit(0); ok && len(c.Args) == 1 {
			switch c.Name {
			case "strings.ToLower":
				return Lit(strings.ToLower(a)), true
			case "strings.ToUpper":
				return Lit(strings.ToUpper(a)), true
			case "strings.TrimSpace":
				return Lit(strings.TrimSpace(a)), true
			}
		}
		if c.Name == "strings.Repeat" {
			n, ok := st.Resolve(c.Args[1]).(Int)
			if !ok || st.Less(n, K(0), false) != No {
				if !ok && st.DecideTop() || ok && st.DecideLess(n, K(0), false) {
					st.Raise("strings: negative Repeat count")
				}
			}
		}
		return pure(c.Name, nil), true
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.IndexAny", "strings.LastIndexByte":
		return pure(c.Name, IntSet{{-1, maxInt}}), true
	case "strings.Count", "unicode/utf8.RuneLen", "unicode/utf8.RuneCountInString":
		return pure(c.Name, IntSet{{-1, maxInt}}), true
	case "unicode/utf8.RuneError":
		return K(0xfffd), true
	case "unicode.IsDigit", "unicode.IsLetter", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower":
		return fact(c.Name), true
	case "unicode.ToLower", "unicode.ToUpper":
		return pure(c.Name, Range(0, 0x10ffff)), true
	case "fmt.Sprintf":
		if f, ok := lit(0); ok {
			if s, ok := st.Format(f, c.Args[1]); ok {
				return s, true
			}
		}
		return SymStr(st.NewSym(SymInfo{T: types.Typ[types.String], Label: "formatted"})), true
	case "fmt.Sprint", "fmt.Sprintln":
		return SymStr(st.NewSym(SymInfo{T: types.Typ[types.String], Label: "formatted"})), true
	case "strconv.ParseFloat":
		s, ok := st.Resolve(c.Args[0]).(Str)
		bits, cok := st.Resolve(c.Args[1]).(Int)
		if !ok || !cok || !bits.IsConst() {
			break
		}
		res := c.Fn.Signature.Results()
		if bits.Off != 32 {
			bits.Off = 64
			if d := st.syms[s.Single()]; s.Single() != 0 && d.Def != nil && d.Def.Op == "FormatFloat" {
				return TupleV{[]Value{d.Def.Args[0], Nil{}}}, true
			}
		}
		parses := st.NewDef(types.Typ[types.Bool], "fact", Tag{"parses"}, s)
		if st.syms[parses].Set == nil {
			st.Update(parses, func(i *SymInfo) { i.Set = Range(0, 1) })
		}
		if !st.DecideBool(Int{Base: parses}) {
			return TupleV{[]Value{Top{}, SymV{st.NewSym(SymInfo{T: res.At(1).Type(), Nil: No, Label: "no number"})}}}, true
		}
		return TupleV{[]Value{SymV{st.NewDef(res.At(0).Type(), "ParseFloat", s, bits)}, Nil{}}}, true
	case "strconv.FormatFloat":
		format, fok := st.Resolve(c.Args[1]).(Int)
		prec, pok := st.Resolve(c.Args[2]).(Int)
		bits, bok := st.Resolve(c.Args[3]).(Int)
		if containsTop(c.Args[0]) || !fok || !pok || !bok {
			break
		}
		if (format.Off == 'f' || format.Off == 'g' || format.Off == 'e') && prec == K(-1) && bits == K(64) {
			// Without loss.
			return SymStr(st.NewDef(types.Typ[types.String], "FormatFloat", c.Args[0])), true
		}
		return pure("FormatFloatWithLoss", nil), true
	case "math.IsInf":
		if sign, ok := c.Args[1].(Int); ok && sign.Base == 0 && sign.Off != 0 {
			return st.infinite(c.Args[0], sign.Off), true
		}
		return fact(c.Name), true
	case "math.IsNaN":
		return fact(c.Name), true
	case "math.Abs", "math.Floor", "math.Round", "math.Trunc", "math.Ceil":
		return pure(c.Name, nil), true
	case "math.Inf", "math.NaN":
		return pure(c.Name, nil), true
	}
	return nil, false
}

// Format models a format string with %s and %d verbs of strings and constants.
func (st *State) Format(f string, args Value) (Value, bool) {
	segs, ok := st.SegsOf(args)
	if !ok {
		return nil, false
	}
	var parts []Str
	n := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, Lit(f))
			break
		}
		parts = append(parts, Lit(f[:i]))
		f = f[i+1:]
		if f == "" {
			return nil, false
		}
		verb := f[0]
		f = f[1:]
		if verb == '%' {
			parts = append(parts, Lit("%"))
			continue
		}
		if n >= len(segs) || !segs[n].IsElem() {
			return nil, false
		}
		arg := st.Resolve(segs[n].Elem)
		n++
		iv, ok := arg.(Iface)
		if !ok {
			return nil, false
		}
		s, ok := st.Resolve(iv.V).(Str)
		if !ok || verb != 's' && verb != 'v' {
			return nil, false
		}
		parts = append(parts, st.ResStr(s))
	}
	return Concat(parts...), true
}
