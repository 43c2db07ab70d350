package main

// transformDriver is a package of the repository, for the analysis only. It makes trees, has them
// transformed, and says what the properties require of the result. The functions without a
// meaning are those that the analysis interprets.
const transformDriver = `package zztransform

import (
	"math"
	"strconv"
	"strings"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/transformer"
	"github.com/stephen/cssc/transforms"
)

func pick(n int) int                       { return 0 }
func split(n int) int                      { return 0 }
func flag() bool                           { return false }
func setting(n int) int                    { return 0 }
func text() string                         { return "" }
func span() ast.Span                       { return ast.Span{} }
func otherValue() ast.Value                { return nil }
func otherPart() ast.SelectorPart          { return nil }
func assume(ok bool)                       {}
func seal()                                {}
func unseal()                              {}
func clone(s *ast.Stylesheet, keep *ast.Function) *ast.Stylesheet { return s }
func same(got, want interface{}, what string) {}
func sameAlternatives(got, want interface{}, what string) {}
func equal(got, want interface{}) bool     { return false }
func require(ok bool, what string)         {}
func begin(what string)                    {}
func compared()                            {}
func contributes(got, want interface{}, what string) {}
func followed(got, want interface{}, what string) {}

// ---- a reporter

type reporter struct{ n int }

func (r *reporter) AddError(err error) { r.n++ }

func run(s *ast.Stylesheet, o transformer.Options) (*ast.Stylesheet, int) {
	r := &reporter{}
	o.Reporter = r
	seal()
	out := transformer.Transform(s, o)
	unseal()
	return out, r.n
}

// ---- trees

func id(s string) *ast.Identifier { return &ast.Identifier{Span: span(), Value: s} }

func fn(name string, args ...ast.Value) *ast.Function {
	return &ast.Function{Span: span(), Name: name, Arguments: args}
}

func sheet(nodes ...ast.Node) *ast.Stylesheet { return &ast.Stylesheet{Nodes: nodes} }

func decl(property string, values ...ast.Value) *ast.Declaration {
	return &ast.Declaration{Span: span(), Property: property, Values: values, Important: flag()}
}

func block(decls ...ast.Declarationish) *ast.DeclarationBlock {
	return &ast.DeclarationBlock{Span: span(), Declarations: decls}
}

func sel(parts ...ast.SelectorPart) *ast.Selector { return &ast.Selector{Span: span(), Parts: parts} }

func sels(list ...*ast.Selector) *ast.SelectorList {
	return &ast.SelectorList{Span: span(), Selectors: list}
}

func rule(prelude ast.Prelude, b ast.Block) *ast.QualifiedRule {
	return &ast.QualifiedRule{Span: span(), Prelude: prelude, Block: b}
}

func pseudo(name string, args ast.PseudoClassArguments) *ast.PseudoClassSelector {
	return &ast.PseudoClassSelector{Span: span(), Name: name, Arguments: args}
}

func root() *ast.SelectorList { return sels(sel(pseudo("root", nil))) }

func plain() *ast.SelectorList { return sels(sel(otherPart())) }

func at(name string, b ast.Block, preludes ...ast.AtPrelude) *ast.AtRule {
	return &ast.AtRule{Span: span(), Name: name, Preludes: preludes, Block: b}
}

// otherName is the name of an at-rule that no transform is about.
func otherName() string {
	s := text()
	assume(s != "import")
	assume(s != "custom-media")
	return s
}

// function is the name of a function that no transform is about.
func function() string {
	s := text()
	assume(s != "var")
	assume(s != "calc")
	return s
}

func property() string {
	s := text()
	assume(!strings.HasPrefix(s, "--"))
	return s
}

func custom() string { return "--" + text() }

func queries(qs ...*ast.MediaQuery) *ast.MediaQueryList {
	return &ast.MediaQueryList{Span: span(), Queries: qs}
}

func query(parts ...ast.MediaQueryPart) *ast.MediaQuery {
	return &ast.MediaQuery{Span: span(), Parts: parts}
}

func dimension() *ast.Dimension {
	return &ast.Dimension{Span: span(), Value: text(), Unit: text()}
}

func number(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	assume(err == nil)
	return f
}

func formatted(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

// ---- places

// inSheet puts a rule somewhere.
func inSheet(r *ast.QualifiedRule) ast.Node {
	switch pick(3) {
	case 0:
		return r
	case 1:
		return at(otherName(), &ast.QualifiedRuleBlock{Span: span(), Rules: []*ast.QualifiedRule{r}})
	default:
		other := rule(plain(), block(decl(property(), otherValue())))
		return at(otherName(), &ast.QualifiedRuleBlock{Span: span(), Rules: []*ast.QualifiedRule{other, r}}, id(text()))
	}
}

// inDecl puts a declaration somewhere.
func inDecl(d *ast.Declaration) ast.Node {
	switch pick(4) {
	case 0:
		return at(otherName(), block(d))
	case 1:
		return inSheet(rule(plain(), block(d)))
	case 2:
		return rule(plain(), block(decl(text(), otherValue()), d, &ast.Raw{Span: span(), Value: text()}))
	default:
		return rule(&ast.KeyframeSelectorList{Span: span(), Selectors: []ast.KeyframeSelector{id(text())}}, block(d))
	}
}

// inValue puts a value into others.
func inValue(v ast.Value, depth int) []ast.Value {
	if depth == 0 {
		return []ast.Value{v}
	}
	inner := inValue(v, depth-1)
	switch pick(7) {
	case 0:
		return inner
	case 1:
		return []ast.Value{fn(function(), inner...)}
	case 2:
		return []ast.Value{&ast.Brackets{Span: span(), Values: inner}}
	case 3:
		assume(len(inner) == 1)
		return []ast.Value{&ast.MathParenthesizedExpression{Span: span(), Value: inner[0]}}
	case 4:
		assume(len(inner) == 1)
		return []ast.Value{&ast.MathExpression{Span: span(), Operator: text(), Left: inner[0], Right: otherValue()}}
	case 5:
		assume(len(inner) == 1)
		return []ast.Value{&ast.MathExpression{Span: span(), Operator: text(), Left: otherValue(), Right: inner[0]}}
	default:
		return append([]ast.Value{otherValue(), &ast.Comma{Span: span()}}, inner...)
	}
}

// deep puts a value deep into many others.
func deep(v ast.Value) []ast.Value {
	for i := 0; i < 8; i++ {
		switch i % 4 {
		case 0:
			v = fn("f", v)
		case 1:
			v = &ast.Brackets{Span: span(), Values: []ast.Value{v}}
		case 2:
			v = &ast.MathParenthesizedExpression{Span: span(), Value: v}
		default:
			v = &ast.MathExpression{Span: span(), Operator: "+", Left: v, Right: otherValue()}
		}
	}
	vs := []ast.Value{}
	for i := 0; i < 12; i++ {
		vs = append(vs, otherValue())
	}
	return append(vs, v)
}

// deepSheet puts a rule behind many others.
func deepSheet(r *ast.QualifiedRule) ast.Node {
	b := &ast.QualifiedRuleBlock{Span: span()}
	for i := 0; i < 12; i++ {
		b.Rules = append(b.Rules, rule(plain(), block(decl("a", otherValue()))))
	}
	b.Rules = append(b.Rules, r)
	return at("media", b, id(text()))
}

// deepDecl puts a declaration behind many others.
func deepDecl(d *ast.Declaration) ast.Node {
	b := block()
	for i := 0; i < 12; i++ {
		b.Declarations = append(b.Declarations, decl("a", otherValue()))
	}
	b.Declarations = append(b.Declarations, d)
	return deepSheet(rule(plain(), b))
}

// ---- C13: a transform that is off

// Off transforms a tree with constructs that the options leave alone.
func Off() {
	o := transformer.Options{Options: transforms.Options{
		MediaFeatureRanges: transforms.MediaFeatureRanges(setting(2)),
		AnyLink:            transforms.AnyLink(setting(2)),
		CustomProperties:   transforms.CustomProperties(setting(2)),
		CustomMediaQueries: transforms.CustomMediaQueries(setting(2)),
		CalcReduction:      transforms.CalcReduction(setting(2)),
	}}
	var in *ast.Stylesheet
	what := ""
	switch split(6) {
	case 0:
		what = "imports"
		o.ImportRules = transforms.ImportRules(setting(2))
		r := at("import", nil, &ast.String{Span: span(), Value: text()})
		switch pick(3) {
		case 1:
			r.Preludes = append(r.Preludes, queries(query(id(text()))))
		case 2:
			r.Preludes = append(r.Preludes, queries(query(&ast.MediaFeaturePlain{Span: span(), Property: id(property()), Value: otherValue()})))
		}
		in = sheet(r)
	case 1:
		what = "ranges"
		o.MediaFeatureRanges = transforms.MediaFeatureRangesPassthrough
		r := &ast.MediaFeatureRange{Span: span(), Property: id(text()), Operator: text()}
		if pick(2) == 1 {
			r.LeftValue = otherValue()
		}
		if pick(2) == 1 {
			r.RightValue = otherValue()
		}
		in = sheet(ranges(r))
	case 2:
		what = ":any-link"
		o.AnyLink = transforms.AnyLinkPassthrough
		in = sheet(inSheet(rule(sels(sel(otherPart(), part(pick(partKinds), 0)), sel(pseudo("any-link", nil))), block(decl(property(), otherValue())))))
	case 3:
		what = "custom properties"
		o.CustomProperties = transforms.CustomPropertiesPassthrough
		if pick(2) == 1 {
			in = sheet(rule(root(), block(decl(custom()), decl(text(), otherValue()), decl(text()))))
		} else if pick(2) == 1 {
			list := plain()
			if pick(2) == 1 {
				list = root()
			}
			in = sheet(inSheet(rule(list, block(decl(custom(), inValue(otherValue(), 1)...), decl(text(), otherValue())))))
		} else {
			in = sheet(inDecl(decl(text(), inValue(use(), 1)...)))
		}
	case 4:
		what = "uses of custom media"
		o.CustomMediaQueries = transforms.CustomMediaQueriesPassthrough
		in = sheet(at(otherName(), nil, queries(query(&ast.MediaFeaturePlain{Span: span(), Property: id(text())}, id(text())))))
	default:
		what = "math functions"
		o.CalcReduction = transforms.CalcReductionPassthrough
		in = sheet(inDecl(decl(text(), inValue(fn("calc", math1()...), 1)...)))
	}
	want := clone(in, nil)
	begin(what)
	got, _ := run(in, o)
	same(got, want, what+" are not the same although their transform is off")
}

// OffCustomMedia transforms definitions of custom media that the options leave alone.
func OffCustomMedia() {
	in := sheet(at("custom-media", nil, id(custom()), query(&ast.MediaFeaturePlain{Span: span(), Property: id(property()), Value: otherValue()})))
	want := clone(in, nil)
	begin("definitions of custom media")
	got, _ := run(in, transformer.Options{})
	same(got, want, "definitions of custom media are not the same although their transform is off")
}

// ranges puts a part of a query somewhere.
func ranges(p ast.MediaQueryPart) ast.Node {
	q := query(p)
	switch pick(3) {
	case 1:
		q = query(id(text()), id("and"), p)
	case 2:
		q = query(p, id("and"), &ast.MediaFeaturePlain{Span: span(), Property: id(property()), Value: otherValue()})
	}
	list := queries(q)
	if pick(2) == 1 {
		list = queries(query(id(text())), q)
	}
	var b ast.Block
	if pick(2) == 1 {
		b = &ast.QualifiedRuleBlock{Span: span(), Rules: []*ast.QualifiedRule{rule(plain(), block(decl(property(), otherValue())))}}
	}
	if pick(2) == 1 {
		return at(otherName(), b, id(text()), list)
	}
	return at(otherName(), b, list)
}

// math1 are arguments of a math function.
func math1() []ast.Value {
	e := &ast.MathExpression{Span: span(), Operator: text(), Left: otherValue(), Right: otherValue()}
	switch pick(7) {
	case 0:
		return []ast.Value{e}
	case 3:
		return nil
	case 4:
		return []ast.Value{otherValue()}
	case 5:
		return []ast.Value{&ast.MathParenthesizedExpression{Span: span(), Value: e}}
	case 6:
		return []ast.Value{fn("calc", e)}
	case 1:
		return []ast.Value{&ast.MathExpression{Span: span(), Operator: text(), Left: e, Right: otherValue()}}
	default:
		return []ast.Value{otherValue(), &ast.Comma{Span: span()}, e}
	}
}

func use() *ast.Function {
	switch pick(5) {
	case 0:
		return fn("var", id(custom()))
	case 1:
		return fn("var", id(custom()), &ast.Comma{Span: span()}, otherValue())
	case 2:
		return fn("var", id(custom()), &ast.Comma{Span: span()}, otherValue(), fn("var", id(custom())))
	case 3:
		return fn("var", id(custom()), &ast.Comma{Span: span()})
	default:
		return fn("var")
	}
}

// ---- C15: any-link

// part is a part of a selector, with others in it down to a depth.
func part(kind, depth int) ast.SelectorPart {
	switch kind {
	case 0:
		return otherPart()
	case 1:
		return pseudo("any-link", nil)
	case 2:
		return &ast.Whitespace{Span: span()}
	case 3:
		// Something else of that name, which is not the same.
		return pseudo("any-link", id(text()))
	case 4:
		return &ast.PseudoElementSelector{Span: span(), Inner: pseudo(text(), nil)}
	case 5:
		return &ast.PseudoElementSelector{Span: span(), Inner: pseudo(text(), within(depth))}
	case 6:
		return pseudo(text(), within(depth))
	default:
		return pseudo(text(), nil)
	}
}

const partKinds = 8

// within is the list of selectors in a part.
func within(depth int) *ast.SelectorList {
	if depth > 0 {
		return sels(sel(part(5+pick(2), depth-1), pseudo("any-link", nil)), sel(otherPart()))
	}
	switch pick(3) {
	case 0:
		return sels(sel(pseudo("any-link", nil)))
	case 1:
		return sels(sel(otherPart(), pseudo("any-link", nil), pseudo("any-link", nil)), sel(otherPart()))
	default:
		return sels(sel(otherPart()), sel(otherPart(), pseudo("any-link", nil)))
	}
}

// selectors are one or two selectors.
func selectors(kind int) []*ast.Selector {
	parts := []ast.SelectorPart{part(kind, 0)}
	switch pick(5) {
	case 0:
		parts = []ast.SelectorPart{part(kind, 1)}
	case 1:
		parts = append(parts, part(pick(partKinds), 0))
	case 2:
		parts = append([]ast.SelectorPart{pseudo("any-link", nil), otherPart()}, parts...)
	case 3:
		parts = append(parts, otherPart(), pseudo("any-link", nil))
	}
	switch pick(3) {
	case 0:
		return []*ast.Selector{sel(parts...)}
	case 1:
		return []*ast.Selector{sel(parts...), sel(otherPart(), pseudo("any-link", nil))}
	default:
		return []*ast.Selector{sel(otherPart()), sel(parts...)}
	}
}

// manySelectors are many selectors or a long one.
func manySelectors() []*ast.Selector {
	if pick(2) == 1 {
		var list []*ast.Selector
		for i := 0; i < 12; i++ {
			list = append(list, sel(otherPart()))
		}
		return append(list, sel(pseudo("any-link", nil), otherPart()))
	}
	at := pick(3) * 6
	s := sel()
	for i := 0; i <= 12; i++ {
		if i == at {
			s.Parts = append(s.Parts, pseudo("any-link", nil))
			continue
		}
		s.Parts = append(s.Parts, otherPart())
	}
	return []*ast.Selector{s}
}

func expandPseudo(p *ast.PseudoClassSelector) *ast.PseudoClassSelector {
	list, ok := p.Arguments.(*ast.SelectorList)
	if !ok {
		return p
	}
	return &ast.PseudoClassSelector{Span: p.Span, Name: p.Name, Arguments: &ast.SelectorList{Span: list.Span, Selectors: expandAll(list.Selectors)}}
}

func expandAll(in []*ast.Selector) []*ast.Selector {
	var out []*ast.Selector
	for _, s := range in {
		out = append(out, expand(s.Span, nil, s.Parts)...)
	}
	return out
}

// expand are the alternatives for the parts done, followed by those to do.
func expand(at ast.Span, done, todo []ast.SelectorPart) []*ast.Selector {
	if len(todo) == 0 {
		return []*ast.Selector{{Span: at, Parts: done}}
	}
	with := func(p ast.SelectorPart) []ast.SelectorPart {
		next := make([]ast.SelectorPart, 0, len(done)+len(todo))
		next = append(next, done...)
		return append(next, p)
	}
	switch p := todo[0].(type) {
	case *ast.PseudoClassSelector:
		if p.Name == "any-link" && p.Arguments == nil {
			link := expand(at, with(&ast.PseudoClassSelector{Name: "link"}), todo[1:])
			return append(link, expand(at, with(&ast.PseudoClassSelector{Name: "visited"}), todo[1:])...)
		}
		return expand(at, with(expandPseudo(p)), todo[1:])
	case *ast.PseudoElementSelector:
		return expand(at, with(&ast.PseudoElementSelector{Span: p.Span, Inner: expandPseudo(p.Inner)}), todo[1:])
	}
	return expand(at, with(todo[0]), todo[1:])
}

// AnyLink transforms selectors.
func AnyLink() {
	o := transformer.Options{Options: transforms.Options{AnyLink: transforms.AnyLinkTransform}}
	kind := split(partKinds + 1)
	var in []*ast.Selector
	if kind < partKinds {
		in = selectors(kind)
	} else {
		in = manySelectors()
	}
	want := sels(expandAll(in)...)
	begin("selectors")
	list := sels(in...)
	r := rule(list, block(decl(property(), otherValue())))
	got, _ := run(sheet(r), o)
	require(len(got.Nodes) == 1, "the rule is gone or there are others")
	out, ok := got.Nodes[0].(*ast.QualifiedRule)
	require(ok, "the rule is something else")
	want.Span = list.Span
	sameAlternatives(out.Prelude, want, "the alternatives are not those of :link and :visited")
	same(out.Block, r.Block, "the declarations are not the same")
}

// ---- C14: ranges

// bound is the condition for a value on one side of a feature.
func bound(name, op string, d *ast.Dimension, left bool) *ast.MediaFeaturePlain {
	lower := op == ">" || op == ">="
	if left {
		lower = !lower
	}
	prefix := "max-"
	if lower {
		prefix = "min-"
	}
	v := d.Value
	if op == "<" || op == ">" {
		if lower {
			v = formatted(number(v) + .001)
		} else {
			v = formatted(number(v) - .001)
		}
	}
	return &ast.MediaFeaturePlain{Property: &ast.Identifier{Value: prefix + name}, Value: &ast.Dimension{Value: v, Unit: d.Unit}}
}

// Ranges lowers a range.
func Ranges() {
	name := text()
	op := []string{"<", "<=", ">", ">="}[pick(4)]
	r := &ast.MediaFeatureRange{Span: span(), Property: id(name), Operator: op}
	var want []ast.MediaQueryPart
	k := pick(3)
	if k != 0 {
		d := dimension()
		number(d.Value)
		r.LeftValue = d
		want = append(want, bound(name, op, d, true))
	}
	if k == 2 {
		want = append(want, &ast.Identifier{Value: "and"})
	}
	if k != 1 {
		d := dimension()
		number(d.Value)
		r.RightValue = d
		want = append(want, bound(name, op, d, false))
	}
	begin("ranges")
	before, after := id(text()), id(text())
	where := pick(3)
	q := query(r)
	switch where {
	case 1:
		q = query(before, r, after)
	case 2:
		var parts []ast.MediaQueryPart
		for i := 0; i < 12; i++ {
			parts = append(parts, id(text()))
		}
		q = query(append(parts, r)...)
		want = append(append([]ast.MediaQueryPart(nil), parts...), want...)
	}
	list := queries(q)
	var others []*ast.MediaQuery
	if where == 2 {
		for i := 0; i < 12; i++ {
			others = append(others, query(id(text())))
		}
		list.Queries = append(append([]*ast.MediaQuery(nil), others...), q)
	}
	got, errs := run(sheet(at("media", nil, list)), transformer.Options{Options: transforms.Options{MediaFeatureRanges: transforms.MediaFeatureRangesTransform}})
	require(errs == 0, "an error is reported for a range of dimensions")
	if where == 1 {
		want = append(append([]ast.MediaQueryPart{before}, want...), after)
	}
	same(got, sheet(&ast.AtRule{Name: "media", Preludes: []ast.AtPrelude{&ast.MediaQueryList{Queries: append(others, &ast.MediaQuery{Parts: want})}}}), "the conditions are not those that the range stands for")
}

// ---- C16: calc

// value is what a math expression evaluates to, if it is a value.
func value(v ast.Value) (val float64, unit string, ok bool) {
	switch v := v.(type) {
	case *ast.Dimension:
		f, err := strconv.ParseFloat(v.Value, 64)
		if err != nil {
			return 0, "", false
		}
		return f, v.Unit, true

	case *ast.MathParenthesizedExpression:
		return value(v.Value)

	case *ast.Function:
		if v.Name == "calc" && len(v.Arguments) == 1 {
			return value(v.Arguments[0])
		}

	case *ast.MathExpression:
		l, lu, lok := value(v.Left)
		r, ru, rok := value(v.Right)
		if !lok || !rok {
			return 0, "", false
		}
		switch v.Operator {
		case "+":
			return l + r, lu, lu == ru
		case "-":
			return l - r, lu, lu == ru
		case "*":
			if lu == "" {
				return l * r, ru, true
			}
			return l * r, lu, ru == ""
		case "/":
			return l / r, lu, ru == "" && r != 0
		}
	}
	return 0, "", false
}

// checkReduced says whether what came out stands for what went in.
func checkReduced(in, out ast.Value) {
	if d, ok := out.(*ast.Dimension); ok {
		if _, ok := in.(*ast.Dimension); ok {
			same(out, in, "a plain value is not the same")
			return
		}
		f, unit, ok := value(in)
		require(ok, "something that has no value is reduced to one")
		require(!math.IsInf(f, 0), "the value is out of range")
		require(equal(d.Unit, unit), "the unit is not that of the expression")
		g, err := strconv.ParseFloat(d.Value, 64)
		require(err == nil && equal(g, f), "the value is not that of the expression")
		return
	}
	switch in := in.(type) {
	case *ast.Function:
		o, ok := out.(*ast.Function)
		require(ok && equal(o.Name, in.Name) && len(o.Arguments) == len(in.Arguments), "a function is something else")
		for i := range in.Arguments {
			checkReduced(in.Arguments[i], o.Arguments[i])
		}
	case *ast.MathExpression:
		o, ok := out.(*ast.MathExpression)
		require(ok && equal(o.Operator, in.Operator), "an expression is something else")
		checkReduced(in.Left, o.Left)
		checkReduced(in.Right, o.Right)
	case *ast.MathParenthesizedExpression:
		o, ok := out.(*ast.MathParenthesizedExpression)
		require(ok, "an expression in parentheses is something else")
		checkReduced(in.Value, o.Value)
	default:
		same(out, in, "a value is not the same")
	}
}

func operator(n int) string { return []string{"+", "-", "*", "/"}[n] }

func math2(op string, l, r ast.Value) *ast.MathExpression {
	return &ast.MathExpression{Span: span(), Operator: op, Left: l, Right: r}
}

// numeric is a dimension whose value is a number.
func numeric() *ast.Dimension {
	d := dimension()
	number(d.Value)
	return d
}

// operand is an operand that is not a number.
func operand() ast.Value {
	switch pick(3) {
	case 0:
		return otherValue()
	case 1:
		return &ast.MathParenthesizedExpression{Span: span(), Value: dimension()}
	default:
		return dimension()
	}
}

// Calc reduces math.
func Calc() {
	var in *ast.Function
	k := split(17)
	op := operator(k % 4)
	switch k / 4 {
	case 4:
		// A long sum or product.
		op = operator(2 * pick(2))
		var v ast.Value = numeric()
		unit := text()
		v.(*ast.Dimension).Unit = unit
		for i := 0; i < 6; i++ {
			next := numeric()
			if op == "+" {
				next.Unit = unit
			} else {
				next.Unit = ""
			}
			v = math2(op, v, next)
		}
		in = fn("calc", v)
	case 0:
		if pick(2) == 1 {
			in = fn("calc", math2(op, dimension(), operand()))
		} else {
			in = fn("calc", math2(op, operand(), dimension()))
		}
	case 1:
		inner := math2(operator(pick(4)), numeric(), numeric())
		if pick(2) == 1 {
			in = fn("calc", math2(op, numeric(), inner))
		} else {
			in = fn("calc", math2(op, inner, numeric()))
		}
	case 2:
		var inner ast.Value = math2(operator(pick(4)), numeric(), numeric())
		if pick(2) == 1 {
			inner = fn("calc", inner)
		} else {
			inner = &ast.MathParenthesizedExpression{Span: span(), Value: inner}
		}
		if pick(2) == 1 {
			in = fn("calc", math2(op, numeric(), inner))
		} else {
			in = fn("calc", math2(op, inner, numeric()))
		}
	default:
		switch pick(4) {
		case 0:
			in = fn("calc", operand())
		case 1:
			in = fn(text(), math2(op, dimension(), dimension()), &ast.Comma{Span: span()}, dimension())
		case 2:
			in = fn(text(), &ast.MathParenthesizedExpression{Span: span(), Value: math2(op, dimension(), dimension())})
		default:
			in = fn(text(), math2(op, math2("*", numeric(), numeric()), math2("-", numeric(), numeric())))
		}
	}
	name := property()
	begin("math")
	got, _ := run(sheet(rule(plain(), block(decl(name, in)))), transformer.Options{Options: transforms.Options{CalcReduction: transforms.CalcReductionReduce}})
	v := only(got, name)
	require(len(v) == 1, "the function is gone, or there are several values for it")
	checkReduced(in, v[0])
}

// only are the values of the only declaration of the only rule.
func only(got *ast.Stylesheet, name string) []ast.Value {
	require(len(got.Nodes) == 1, "the rule is gone or there are others")
	r, ok := got.Nodes[0].(*ast.QualifiedRule)
	require(ok, "the rule is something else")
	b, ok := r.Block.(*ast.DeclarationBlock)
	require(ok && len(b.Declarations) == 1, "the declaration is gone or there are others")
	d, ok := b.Declarations[0].(*ast.Declaration)
	require(ok && equal(d.Property, name), "the declaration is something else")
	return d.Values
}

// ---- C17: definitions

func isRoot(s *ast.Selector) bool {
	n := 0
	for _, p := range s.Parts {
		switch p := p.(type) {
		case *ast.Whitespace:
		case *ast.PseudoClassSelector:
			if p.Name != "root" || p.Arguments != nil {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n == 1
}

func rootish(which int) *ast.Selector {
	switch which {
	case 0:
		return sel(pseudo("root", nil))
	case 1:
		return sel(&ast.Whitespace{Span: span()}, pseudo("root", nil))
	case 2:
		return sel(pseudo("root", nil), &ast.Whitespace{Span: span()})
	case 3:
		return sel(pseudo("root", nil), otherPart())
	case 4:
		return sel(otherPart(), pseudo("root", nil))
	case 5:
		return sel(pseudo("root", nil), pseudo(text(), nil))
	case 6:
		return sel(pseudo("root", sels(sel(otherPart()))))
	case 7:
		return sel(&ast.PseudoElementSelector{Span: span(), Inner: pseudo("root", nil)})
	case 8:
		return sel(pseudo("root", nil), &ast.Whitespace{Span: span()}, pseudo("root", nil))
	default:
		return sel(pseudo(text(), nil))
	}
}

// Definitions transforms a rule that may define variables and one that uses them.
func Definitions() {
	which := split(11)
	many := which == 10
	if many {
		which = 0
	}
	list := sels(rootish(which))
	if many {
		for i := 0; i < 9; i++ {
			list.Selectors = append(list.Selectors, rootish(i%3))
		}
		if pick(2) == 1 {
			list.Selectors = append(list.Selectors, sel(otherPart()))
		}
	} else if pick(2) == 1 {
		if pick(2) == 1 {
			list = sels(rootish(which), sel(pseudo("root", nil)))
		} else {
			list = sels(sel(pseudo("root", nil)), rootish(which))
		}
	}
	defines := true
	for _, s := range list.Selectors {
		if !isRoot(s) {
			defines = false
		}
	}
	var decls, keep []ast.Declarationish
	vars := map[string][]ast.Value{}
	add := func(d ast.Declarationish) {
		decls = append(decls, d)
		if d, ok := d.(*ast.Declaration); ok && defines && strings.HasPrefix(d.Property, "--") {
			vars[d.Property] = d.Values
			return
		}
		keep = append(keep, d)
	}
	name := custom()
	how := 0
	if !many {
		how = 1 + pick(5)
	}
	switch how {
	case 0:
		for i := 0; i < 10; i++ {
			add(decl([]string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}[i], otherValue()))
			add(decl([]string{"--a", "--b", "--c", "--d", "--e", "--f", "--g", "--h", "--i", "--j"}[i], otherValue()))
		}
		name = []string{"--a", "--e", "--j"}[pick(3)]
	case 1:
		add(decl(name, otherValue()))
	case 2:
		add(decl(name, otherValue(), otherValue()))
		add(decl(property(), otherValue()))
	case 3:
		add(decl(property(), otherValue()))
		add(decl(name, otherValue()))
		add(decl(custom(), otherValue()))
	case 4:
		add(&ast.Raw{Span: span(), Value: text()})
		add(decl(name, otherValue()))
		add(decl(name, otherValue(), &ast.Comma{Span: span()}))
	default:
		add(decl(text(), otherValue()))
	}
	other := name
	if pick(2) == 1 {
		other = custom()
	}
	before, after := otherValue(), otherValue()
	uses := rule(plain(), block(decl(property(), before, fn("var", id(other)), after)))
	in := sheet(rule(list, block(decls...)), uses)
	if !many && pick(2) == 1 {
		// Rules in a block are conditional.
		in.Nodes[0] = at(otherName(), &ast.QualifiedRuleBlock{Span: span(), Rules: []*ast.QualifiedRule{rule(list, block(decls...))}})
		want := clone(in, nil)
		begin("definitions in a block")
		got, _ := run(in, transformer.Options{Options: transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot}})
		same(got, want, "custom properties in the block of an at-rule are not left alone")
		return
	}
	want := clone(in, nil)
	begin("definitions")
	if vals, ok := vars[other]; ok {
		all := append(append([]ast.Value{before}, vals...), after)
		want.Nodes[1].(*ast.QualifiedRule).Block.(*ast.DeclarationBlock).Declarations[0].(*ast.Declaration).Values = all
	}
	want.Nodes[0].(*ast.QualifiedRule).Block.(*ast.DeclarationBlock).Declarations = keep
	if len(keep) == 0 {
		want.Nodes = want.Nodes[1:]
	}
	got, _ := run(in, transformer.Options{Options: transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot}})
	same(got, want, "definitions under :root, or what is under other selectors, or uses, are not what they should be")
}

// ---- C18: places

// Places puts a construct everywhere.
func Places() {
	o := transformer.Options{}
	var in, want *ast.Stylesheet
	what := ""
	unordered := false
	switch split(5) {
	case 0:
		what = "var()"
		o.CustomProperties = transforms.CustomPropertiesTransformRoot
		name := custom()
		v := otherValue()
		u := fn("var", id(name))
		if pick(2) == 1 {
			in = sheet(rule(root(), block(decl(name, v))), deepDecl(decl("b", deep(u)...)))
		} else {
			in = sheet(rule(root(), block(decl(name, v))), inDecl(decl(text(), inValue(u, 2)...)))
		}
		want = clone(in, u)
		want.Nodes = want.Nodes[1:]
		replace(want.Nodes[0], u, []ast.Value{v})
	case 1:
		what = "var() in a fallback or a definition"
		o.CustomProperties = transforms.CustomPropertiesTransformRoot
		name, other := custom(), custom()
		assume(other != name)
		v := otherValue()
		u := fn("var", id(name))
		nested := inValue(u, 1)
		def := rule(root(), block(decl(name, v)))
		if pick(2) == 1 {
			// A fallback.
			unknown := fn("var", append([]ast.Value{id(other), &ast.Comma{Span: span()}}, nested...)...)
			in = sheet(def, rule(plain(), block(decl(property(), unknown))))
		} else {
			in = sheet(def, rule(root(), block(decl(other, nested...))), rule(plain(), block(decl(property(), fn("var", id(other))))))
		}
		want = clone(in, nil)
		last := want.Nodes[len(want.Nodes)-1].(*ast.QualifiedRule)
		want.Nodes = []ast.Node{last}
		last.Block.(*ast.DeclarationBlock).Declarations[0].(*ast.Declaration).Values = replaced(nested, u, []ast.Value{v})
	case 2:
		what = "calc()"
		o.CalcReduction = transforms.CalcReductionReduce
		a, b := dimension(), dimension()
		b.Unit = a.Unit
		sum := number(a.Value) + number(b.Value)
		assume(!math.IsInf(sum, 0))
		u := fn("calc", &ast.MathExpression{Span: span(), Operator: "+", Left: a, Right: b})
		if pick(2) == 1 {
			in = sheet(deepDecl(decl("b", deep(u)...)))
		} else {
			in = sheet(inDecl(decl(text(), inValue(u, 2)...)))
		}
		want = clone(in, u)
		replace(want.Nodes[0], u, []ast.Value{&ast.Dimension{Value: formatted(sum), Unit: a.Unit}})
	case 3:
		what = ":any-link"
		o.AnyLink = transforms.AnyLinkTransform
		unordered = true
		list := sels(sel(otherPart(), pseudo("any-link", nil)))
		expanded := &ast.SelectorList{Span: list.Span, Selectors: expandAll(list.Selectors)}
		if pick(2) == 1 {
			p := otherPart()
			at, name := span(), text()
			wrap := func(l *ast.SelectorList) *ast.SelectorList {
				inner := &ast.PseudoClassSelector{Span: at, Name: name, Arguments: l}
				if name == "slotted" {
					return &ast.SelectorList{Span: at, Selectors: []*ast.Selector{{Span: at, Parts: []ast.SelectorPart{p, &ast.PseudoElementSelector{Span: at, Inner: inner}}}}}
				}
				return &ast.SelectorList{Span: at, Selectors: []*ast.Selector{{Span: at, Parts: []ast.SelectorPart{p, inner}}}}
			}
			list, expanded = wrap(list), wrap(expanded)
		}
		r := rule(list, block(decl(property(), otherValue())))
		w := &ast.QualifiedRule{Span: r.Span, Prelude: expanded, Block: r.Block}
		n := deepSheet(r)
		if pick(2) == 1 {
			n = inSheet(r)
		}
		in = sheet(n)
		switch n := n.(type) {
		case *ast.QualifiedRule:
			want = sheet(w)
		case *ast.AtRule:
			rules := n.Block.(*ast.QualifiedRuleBlock).Rules
			copied := append([]*ast.QualifiedRule(nil), rules[:len(rules)-1]...)
			want = sheet(&ast.AtRule{Span: n.Span, Name: n.Name, Preludes: n.Preludes, Block: &ast.QualifiedRuleBlock{Span: n.Block.Location(), Rules: append(copied, w)}})
		}
	default:
		what = "ranges"
		o.MediaFeatureRanges = transforms.MediaFeatureRangesTransform
		d := dimension()
		name := text()
		r := &ast.MediaFeatureRange{Span: span(), Property: id(name), Operator: ">=", RightValue: d}
		in = sheet(ranges(r))
		if pick(2) == 1 {
			in.Nodes[0].(*ast.AtRule).Name = "import"
		}
		want = clone(in, nil)
		for _, p := range want.Nodes[0].(*ast.AtRule).Preludes {
			if l, ok := p.(*ast.MediaQueryList); ok {
				for _, q := range l.Queries {
					for i, p := range q.Parts {
						if _, ok := p.(*ast.MediaFeatureRange); ok {
							q.Parts[i] = bound(name, ">=", d, false)
						}
					}
				}
			}
		}
	}
	if pick(2) == 1 {
		// The same in an imported stylesheet.
		imported := in
		r := at("import", nil, &ast.String{Span: span(), Value: text()})
		o.ImportRules = transforms.ImportRulesInline
		o.ImportReplacements = map[*ast.AtRule]*ast.Stylesheet{r: imported}
		in = sheet(r)
	}
	begin(what)
	got, _ := run(in, o)
	if unordered {
		sameAlternatives(got, want, what+" is not transformed everywhere")
		return
	}
	same(got, want, what+" is not transformed everywhere")
}

// replace puts values in the place of one.
func replace(n ast.Node, u *ast.Function, by []ast.Value) {
	switch n := n.(type) {
	case *ast.AtRule:
		replace(n.Block, u, by)
	case *ast.QualifiedRule:
		replace(n.Block, u, by)
	case *ast.QualifiedRuleBlock:
		for _, r := range n.Rules {
			replace(r, u, by)
		}
	case *ast.DeclarationBlock:
		for _, d := range n.Declarations {
			if d, ok := d.(*ast.Declaration); ok {
				d.Values = replaced(d.Values, u, by)
			}
		}
	}
}

func replaced(vs []ast.Value, u *ast.Function, by []ast.Value) []ast.Value {
	var out []ast.Value
	for _, v := range vs {
		switch v := v.(type) {
		case *ast.Function:
			if v == u {
				out = append(out, by...)
				continue
			}
			out = append(out, &ast.Function{Span: v.Span, Name: v.Name, Arguments: replaced(v.Arguments, u, by)})
		case *ast.Brackets:
			out = append(out, &ast.Brackets{Span: v.Span, Values: replaced(v.Values, u, by)})
		case *ast.MathParenthesizedExpression:
			out = append(out, &ast.MathParenthesizedExpression{Span: v.Span, Value: replaced([]ast.Value{v.Value}, u, by)[0]})
		case *ast.MathExpression:
			out = append(out, &ast.MathExpression{Span: v.Span, Operator: v.Operator, Left: replaced([]ast.Value{v.Left}, u, by)[0], Right: replaced([]ast.Value{v.Right}, u, by)[0]})
		default:
			out = append(out, v)
		}
	}
	return out
}

// ---- C33: custom media

// CustomMedia transforms definitions of custom media and their uses.
func CustomMedia() {
	name, second := custom(), custom()
	part := func() ast.MediaQueryPart {
		if pick(2) == 1 {
			return id(text())
		}
		return &ast.MediaFeaturePlain{Span: span(), Property: id(property()), Value: otherValue()}
	}
	q1 := query(part())
	if pick(2) == 1 {
		q1 = query(part(), id("and"), part())
	}
	q2 := query(id(text()))
	defs := map[string]*ast.MediaQuery{name: q1}
	nodes := []ast.Node{at("custom-media", nil, id(name), q1)}
	which := pick(8)
	if which == 7 {
		nodes, defs = nil, map[string]*ast.MediaQuery{}
	} else if pick(2) == 1 {
		nodes = append(nodes, at("custom-media", nil, id(second), q2))
		defs[second] = q2
	}
	var parts, wanted []ast.MediaQueryPart
	use := func(n string) {
		p := &ast.MediaFeaturePlain{Span: span(), Property: id(n)}
		parts = append(parts, p)
		if d, ok := defs[n]; ok {
			wanted = append(wanted, d.Parts...)
		} else {
			wanted = append(wanted, p)
		}
	}
	keep := func(p ast.MediaQueryPart) {
		parts = append(parts, p)
		wanted = append(wanted, p)
	}
	switch which {
	case 7:
		for i := 0; i < 12; i++ {
			n := []string{"--a", "--b", "--c", "--d", "--e", "--f", "--g", "--h", "--i", "--j", "--k", "--l"}[i]
			d := query(id("a"), id("and"), id("b"), id("and"), id("c"), id("and"), id("d"), id("and"), id(text()))
			nodes = append(nodes, at("custom-media", nil, id(n), d))
			defs[n] = d
		}
		for i := 0; i < 12; i++ {
			keep(id(text()))
		}
		use("--l")
		keep(id("and"))
		use("--a")
	case 0:
		use(name)
	case 1:
		keep(id(text()))
		keep(id("and"))
		use(name)
	case 2:
		use(name)
		keep(id("and"))
		use(second)
	case 3:
		use(custom())
		keep(id("and"))
		use(name)
	case 4:
		use(text())
	case 5:
		// With a value, it is no use.
		keep(&ast.MediaFeaturePlain{Span: span(), Property: id(name), Value: otherValue()})
	default:
		// The name alone is no use.
		keep(id(name))
		keep(&ast.MediaFeaturePlain{Span: span(), Property: id(property())})
	}
	use1 := query(parts...)
	want1 := &ast.MediaQuery{Span: use1.Span, Parts: wanted}
	list := queries(use1)
	wantList := &ast.MediaQueryList{Span: list.Span, Queries: []*ast.MediaQuery{want1}}
	if pick(2) == 1 {
		other := query(id(text()))
		list.Queries = append(list.Queries, other)
		wantList.Queries = append(wantList.Queries, other)
	}
	var b ast.Block
	if pick(2) == 1 {
		b = block(decl(property(), otherValue()))
	}
	m := at(otherName(), b, list)
	want := sheet(&ast.AtRule{Span: m.Span, Name: m.Name, Preludes: []ast.AtPrelude{wantList}, Block: b})
	begin("custom media")
	nodes = append(nodes, m)
	got, _ := run(sheet(nodes...), transformer.Options{Options: transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform}})
	same(got, want, "uses or definitions of custom media are not what they should be")
}

// ---- C11: imports

// Imports inlines imports in graphs.
func Imports() {
	qualified := pick(3)
	n := 0
	imp := func() *ast.AtRule {
		n++
		i := at("import", nil, &ast.String{Span: span(), Value: text()})
		if qualified == 1 || qualified == 2 && n == 2 {
			i.Preludes = append(i.Preludes, queries(query(id(text()))))
		}
		return i
	}
	r := func() ast.Node { return rule(plain(), block(decl(property(), otherValue()))) }
	a, b, c := imp(), imp(), imp()
	ra, rb, rc := r(), r(), r()
	main := sheet(a, ra)
	to := map[*ast.AtRule]*ast.Stylesheet{}
	o := transformer.Options{Options: transforms.Options{ImportRules: transforms.ImportRulesInline}, ImportReplacements: to}
	var want *ast.Stylesheet
	kind := pick(10)
	switch kind {
	case 0: // none
		to[a] = sheet(rb)
		want = sheet(rb, ra)
	case 1: // itself
		to[a] = main
		want = sheet(ra)
	case 2: // two
		to[a] = sheet(b, rb)
		to[b] = main
		want = sheet(rb, ra)
	case 3: // a cycle of others
		second := sheet(c, rc)
		first := sheet(b, rb)
		to[a], to[b], to[c] = first, second, first
		want = sheet(rc, rb, ra)
	case 4: // itself, imported
		first := sheet(b, rb)
		to[a], to[b] = first, first
		want = sheet(rb, ra)
	case 5: // three
		to[a] = sheet(b, rb)
		to[b] = sheet(c, rc)
		to[c] = main
		want = sheet(rc, rb, ra)
	case 6: // a diamond
		shared := sheet(rc)
		d := imp()
		main = sheet(a, b, ra)
		to[a] = sheet(c, rb)
		to[b] = sheet(d, rb)
		to[c], to[d] = shared, shared
		want = sheet(rc, rb, rc, rb, ra)
	case 7: // unknown
		to[b] = sheet(rb)
		want = sheet(a, ra)
	case 8: // many, one after the other
		main, want = sheet(), sheet()
		for i := 0; i < 10; i++ {
			a, ra := imp(), r()
			main.Nodes = append(main.Nodes, a)
			to[a] = sheet(ra)
			want.Nodes = append(want.Nodes, ra)
		}
		main.Nodes = append(main.Nodes, ra)
		want.Nodes = append(want.Nodes, ra)
	default: // many, one in the other
		last := main
		want = sheet()
		for i := 0; i < 10; i++ {
			next := imp()
			to[a] = sheet(next, r())
			last = to[a]
			want.Nodes = append([]ast.Node{last.Nodes[1]}, want.Nodes...)
			a = next
		}
		to[a] = sheet(rb)
		want.Nodes = append([]ast.Node{rb}, append(want.Nodes, ra)...)
	}
	want = clone(want, nil)
	begin([]string{"no import", "a file that imports itself", "two files that import each other", "a cycle behind an import", "an import that imports itself", "a cycle of three", "a diamond", "an import that is not inlined", "many imports", "imports in imports"}[kind])
	got, _ := run(main, o)
	compared()
	if kind == 0 || kind > 5 {
		contributes(got, want, "what an imported stylesheet contributes is not what is in it")
		return
	}
	rules := sheet()
	for _, n := range got.Nodes {
		if _, ok := n.(*ast.QualifiedRule); ok {
			rules.Nodes = append(rules.Nodes, n)
		}
	}
	followed(rules, want, "a stylesheet that is being inlined is followed again, or one that is not is not followed")
}
`
