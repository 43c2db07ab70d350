package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C08, C09, C10, C11, C32: the compilation of a set of entries, over symbolic files. A task
// that is started runs at once; whatever other tasks may change is forgotten when a lock is
// taken or released, so that what holds for this order holds for every other.

func init() {
	for _, id := range []string{"C08", "C09", "C10", "C11", "C32"} {
		id := id
		register(id, func(p *Program, r *Report) { checkAPI(p, r, id) })
	}
}

type apiClient struct {
	astClient
	prop    string
	follow  int64
	inline  int64
	source  *types.Named
	sheet   *types.Named
	locks   map[string]bool // that are held at every call of the reporter
	reports int
	counts  map[string]int
	keep    map[*ssa.Function]bool
	onSpawn func(st *ai.State, f ai.Value, args []ai.Value) []ai.Value // what onJoin needs
	onJoin  func(st *ai.State, mine []ai.Value)
}

// fail reports a violation and ends the path, unless it is one of another property.
func (c *apiClient) fail(st *ai.State, prop, key, format string, args ...interface{}) {
	if prop == c.prop {
		st.M.Report(key, "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
		st.Infeasible()
	}
}

func (c *apiClient) count(st *ai.State, what string) {
	c.counts[what]++
}

// ---- sets in the ghost state

func ghostSet(st *ai.State, name string) []ai.Value {
	s, _ := st.Ghost[name].(ai.StructV)
	return s.F
}

func ghostPut(st *ai.State, name string, vs []ai.Value) {
	if len(vs) == 0 {
		delete(st.Ghost, name)
		return
	}
	st.Ghost[name] = ai.StructV{F: vs}
}

func ghostHas(st *ai.State, name string, v ai.Value) bool {
	for _, x := range ghostSet(st, name) {
		if st.SameValue(x, v) {
			return true
		}
	}
	return false
}

func ghostAdd(st *ai.State, name string, v ai.Value) {
	if !ghostHas(st, name, v) {
		ghostPut(st, name, append(append([]ai.Value(nil), ghostSet(st, name)...), v))
	}
}

func ghostDel(st *ai.State, name string, v ai.Value) bool {
	var out []ai.Value
	found := false
	for _, x := range ghostSet(st, name) {
		if st.SameValue(x, v) {
			found = true
			continue
		}
		out = append(out, x)
	}
	ghostPut(st, name, out)
	return found
}

func duty(kind string, v ai.Value) ai.Value { return ai.StructV{F: []ai.Value{ai.Tag{S: kind}, v}} }

func dutyOf(v ai.Value) (string, ai.Value) {
	s := v.(ai.StructV)
	return s.F[0].(ai.Tag).S, s.F[1]
}

// ---- terms

func (c *apiClient) term(st *ai.State, op string, args ...ai.Value) ai.Str {
	return ai.SymStr(st.NewDef(stringType, op, args...))
}

func (c *apiClient) def(st *ai.State, v ai.Value) *ai.Term {
	switch v := unwrap(st, v).(type) {
	case ai.Str:
		if s := v.Single(); s != 0 {
			return st.Info(s).Def
		}
	case ai.Int:
		if v.Base != 0 {
			return st.Info(v.Base).Def
		}
	case ai.SymV:
		return st.Info(v.S).Def
	case ai.Ptr:
		if o := st.Object(v.Obj); o != nil && o.Src != 0 && len(v.Path) == 0 {
			return st.Info(o.Src).Def
		}
	}
	return nil
}

// unwrap is the value in an interface.
func unwrap(st *ai.State, v ai.Value) ai.Value {
	v = st.Resolve(v)
	if i, ok := v.(ai.Iface); ok {
		return st.Resolve(i.V)
	}
	return v
}

func (c *apiClient) defIs(st *ai.State, v ai.Value, op string) bool {
	d := c.def(st, v)
	return d != nil && d.Op == op
}

// fieldOf reads a field of the struct behind a pointer.
func fieldOf(st *ai.State, v ai.Value, name string) (ai.Value, bool) {
	p := st.Deref(v, nil)
	o := st.Object(p.Obj)
	if len(p.Path) > 0 || o.Kind != ai.Cell {
		return nil, false
	}
	str, ok := o.T.Underlying().(*types.Struct)
	sv, ok2 := o.V.(ai.StructV)
	if !ok || !ok2 {
		return nil, false
	}
	for i := 0; i < str.NumFields(); i++ {
		if str.Field(i).Name() == name {
			return st.Resolve(sv.F[i]), true
		}
	}
	return nil, false
}

// subject is the path of the file that a value is about.
func (c *apiClient) subject(st *ai.State, v ai.Value) (ai.Value, bool) {
	v = unwrap(st, v)
	d := c.def(st, v)
	switch x := v.(type) {
	case ai.Str:
		if d != nil && (d.Op == "printed" || d.Op == "content") {
			return d.Args[0], true
		}
		return x, true
	case ai.Int:
		if d != nil && d.Op == "index" && x.Off == 0 {
			return d.Args[0], true
		}
		if d != nil && d.Op == "newindex" && st.SameValue(d.Args[1], ai.K(x.Off)) {
			return d.Args[0], true
		}
	case ai.SymV:
		if d == nil {
			return nil, false
		}
		switch d.Op {
		case "parsed", "source", "transformed":
			return d.Args[0], true
		case "importrule":
			return c.term(st, "abs", c.term(st, "resolve", d.Args[0])), true
		}
	case ai.Ptr:
		if d != nil && (d.Op == "parsed" || d.Op == "source" || d.Op == "transformed") {
			return d.Args[0], true
		}
		if o := st.Object(x.Obj); o.T != nil && len(x.Path) == 0 && types.Identical(o.T, c.source) {
			if s, ok := fieldOf(st, x, "Path"); ok {
				if s, ok := s.(ai.Str); ok {
					return s, true
				}
			}
		}
	}
	return nil, false
}

func (c *apiClient) mustSubject(st *ai.State, v ai.Value, what string) ai.Value {
	s, ok := c.subject(st, v)
	if !ok {
		st.Undecided("%s is about a file that is not known", what)
	}
	return s
}

// ---- inputs

func (c *apiClient) NewInput(st *ai.State, t types.Type, s ai.Sym) ai.Value {
	v := c.astClient.NewInput(st, t, s)
	d := st.Info(s).Def
	sv, ok := v.(ai.StructV)
	str, ok2 := t.Underlying().(*types.Struct)
	if d == nil || !ok || !ok2 || !types.Identical(t, c.source) {
		return v
	}
	for i := range sv.F {
		switch str.Field(i).Name() {
		case "Path":
			sv.F[i] = d.Args[0]
		case "Content":
			sv.F[i] = c.term(st, "content", d.Args[0])
		}
	}
	return sv
}

func (c *apiClient) NewElem(st *ai.State, list ai.ObjID, idx ai.Int) ai.Value {
	o := st.Object(list)
	switch {
	case strings.HasSuffix(o.Label, "Entry"):
		return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "entry", Def: &ai.Term{Op: "entry"}}))
	case strings.HasSuffix(o.Label, "Imports"):
		if str, ok := o.T.Underlying().(*types.Struct); ok {
			out := ai.StructV{}
			var val ai.Value
			for i := 0; i < str.NumFields(); i++ {
				f := str.Field(i)
				switch f.Name() {
				case "Value":
					val = ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "import", Def: &ai.Term{Op: "importvalue", Args: []ai.Value{st.Ghost["parsed"]}}}))
					out.F = append(out.F, val)
				case "AtRule":
					if val == nil {
						st.Undecided("fields of an import")
					}
					out.F = append(out.F, ai.SymV{S: st.NewSym(ai.SymInfo{T: f.Type(), Nil: ai.No, Label: "import rule", Def: &ai.Term{Op: "importrule", Args: []ai.Value{val}}})})
				default:
					out.F = append(out.F, st.Unknown(f.Type(), f.Name()))
				}
			}
			return out
		}
	}
	return c.astClient.NewElem(st, list, idx)
}

// ---- maps

func (c *apiClient) MapLookup(st *ai.State, m, key ai.Value, t *types.Map) (ai.Value, ai.Value, bool) {
	p := c.mustSubject(st, key, "the key of a map")
	miss := func() (ai.Value, ai.Value, bool) {
		st.Ghost["miss"] = ai.StructV{F: []ai.Value{st.Resolve(m), p}}
		if c.sourceTable(t) {
			st.Ghost["nosource"] = p
		}
		c.discharge(st, "output", p)
		c.discharge(st, "replace", p)
		return ai.Nil{}, ai.Bool(false), true
	}
	if isSet(t) {
		f := ai.Int{Base: c.requested(st, p)}
		if st.DecideBool(f) {
			return boolOrUnit(t), ai.Bool(true), true
		}
		return miss()
	}
	if !c.mustHit(st, p, t) && !st.DecideTop() {
		return miss()
	}
	switch u := t.Elem().Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return ai.Int{Base: st.NewDef(t.Elem(), "index", p)}, ai.Bool(true), true
		}
		if u.Info()&types.IsString != 0 {
			return c.term(st, "printed", p), ai.Bool(true), true
		}
	case *types.Pointer:
		op := ""
		switch {
		case types.Identical(u.Elem(), c.source):
			op = "source"
		case types.Identical(u.Elem(), c.sheet):
			op = "parsed"
		}
		if op != "" {
			s := st.NewDef(t.Elem(), op, p)
			st.Update(s, func(i *ai.SymInfo) { i.Nil = ai.No })
			return ai.SymV{S: s}, ai.Bool(true), true
		}
	}
	return st.Unknown(t.Elem(), "map element"), ai.Bool(true), true
}

// mustHit says whether the source of a file is known to be in its table: files whose tree is
// in the table have been parsed, and so their source was stored by the end of their task.
func (c *apiClient) mustHit(st *ai.State, p ai.Value, t *types.Map) bool {
	if !c.sourceTable(t) || ghostHas(st, "duties", duty("source", p)) {
		return false
	}
	return st.HasDef("parsed", p)
}

func (c *apiClient) sourceTable(t *types.Map) bool {
	ptr, ok := t.Elem().Underlying().(*types.Pointer)
	return ok && types.Identical(ptr.Elem(), c.source)
}

func isSet(t *types.Map) bool {
	switch u := t.Elem().Underlying().(type) {
	case *types.Struct:
		return u.NumFields() == 0
	case *types.Basic:
		return u.Info()&types.IsBoolean != 0
	}
	return false
}

func boolOrUnit(t *types.Map) ai.Value {
	if _, ok := t.Elem().Underlying().(*types.Basic); ok {
		return ai.Bool(true)
	}
	return ai.StructV{}
}

func (c *apiClient) requested(st *ai.State, p ai.Value) ai.Sym {
	s := st.NewDef(types.Typ[types.Bool], "requested", p)
	if st.Info(s).Set == nil {
		st.Update(s, func(i *ai.SymInfo) { i.Set = ai.Range(0, 1) })
	}
	return s
}

func (c *apiClient) discharge(st *ai.State, kind string, p ai.Value) bool {
	return ghostDel(st, "duties", duty(kind, p))
}

func (c *apiClient) mapType(st *ai.State, m ai.Value) *types.Map {
	switch m := st.Resolve(m).(type) {
	case ai.Ptr:
		t, _ := st.Object(m.Obj).T.Underlying().(*types.Map)
		return t
	case ai.SymV:
		t, _ := st.Info(m.S).T.Underlying().(*types.Map)
		return t
	}
	return nil
}

func (c *apiClient) MapUpdate(st *ai.State, m, key, v ai.Value) bool {
	t := c.mapType(st, m)
	if t == nil {
		return false
	}
	p := c.mustSubject(st, key, "the key of a map")
	if v == nil {
		c.fail(st, "C32", "delete", "an entry of a table of the compilation is deleted")
		return true
	}
	_, keyIsPath := st.Resolve(key).(ai.Str)
	elem := t.Elem().Underlying()
	basic, _ := elem.(*types.Basic)
	switch {
	case isSet(t):
		if b, ok := st.Resolve(v).(ai.Int); ok && basic != nil && !st.DecideBool(b) {
			return true
		}
		if !keyIsPath {
			if _, ok := st.Resolve(key).(ai.Int); !ok {
				st.Undecided("set of %T", key)
			}
		}
		c.request(st, p)
		return true
	case keyIsPath && basic != nil && basic.Info()&types.IsInteger != 0:
		c.claim(st, m, p, v)
		return true
	case keyIsPath && basic != nil && basic.Info()&types.IsString != 0:
		c.output(st, m, key, v)
		return true
	}
	if _, isNil := st.Resolve(v).(ai.Nil); isNil && c.sourceTable(t) && c.mustHit(st, p, t) {
		if q, ok := st.Ghost["nosource"]; ok && st.SameValue(p, q) {
			st.Infeasible() // a function that did not know of the tree has looked for the source
		}
	}
	s := c.mustSubject(st, v, "the value that is put into a map")
	if !st.SameValue(s, p) {
		prop := "C10"
		if c.defIs(st, key, "importrule") {
			prop = "C08"
		}
		c.fail(st, prop, "mixed-up", "what is stored under %s is about %s, not about %s", st.Describe(key), st.Describe(s), st.Describe(p))
	}
	switch {
	case c.defIs(st, key, "importrule"):
		c.discharge(st, "replace", p)
		c.discharge(st, "bind", p)
		c.count(st, "imports bound")
	case c.defIs(st, v, "parsed"):
		c.discharge(st, "store", p)
		c.count(st, "parsed files stored")
	default:
		if q, ok := st.Resolve(v).(ai.Ptr); ok {
			if o := st.Object(q.Obj); o.T != nil && types.Identical(o.T, c.source) {
				c.checkSource(st, v)
				c.discharge(st, "source", p)
			}
		} else if c.defIs(st, v, "source") {
			c.discharge(st, "source", p)
		}
	}
	return true
}

// request puts a file into the set of outputs.
func (c *apiClient) request(st *ai.State, p ai.Value) {
	d := c.def(st, p)
	if d == nil || d.Op != "abs" {
		c.fail(st, "C32", "not-absolute", "a file is requested as output by %s, which is not its absolute path", st.Describe(p))
		return
	}
	switch {
	case c.defIs(st, d.Args[0], "entry"):
	case c.defIs(st, d.Args[0], "resolve"):
		if rules, ok := c.importRules(st); !ok || st.Equal(rules, ai.K(c.follow)) != ai.Yes {
			c.fail(st, "C32", "imported-output", "an imported file is requested as output although imports may not be followed")
		}
	default:
		c.fail(st, "C32", "other-output", "a file is requested as output that is neither an entry nor an import: %s", st.Describe(d.Args[0]))
	}
	c.discharge(st, "request", p)
	c.count(st, "outputs requested")
}

// claim gives a file its index.
func (c *apiClient) claim(st *ai.State, m, p, v ai.Value) {
	n, ok := st.Resolve(v).(ai.Int)
	if !ok {
		st.Undecided("index of a file")
	}
	if s, ok := c.subject(st, n); ok && st.SameValue(s, p) {
		return
	}
	miss, _ := st.Ghost["miss"].(ai.StructV)
	if len(miss.F) != 2 || !st.SameValue(miss.F[0], st.Resolve(m)) || !st.SameValue(miss.F[1], p) {
		c.fail(st, "C11", "claim", "a file is given an index without having looked, under the same lock, that it has none: two tasks may both process it")
	}
	if c.defIs(st, p, "abs") == false {
		c.fail(st, "C11", "claim-path", "a file is given an index by %s, which is not its absolute path: it may be processed under several names", st.Describe(p))
	}
	if n.Base == 0 || st.Info(n.Base).Def != nil {
		c.fail(st, "C11", "same-index", "two files may be given the same index")
		return
	}
	if l, _ := st.Ghost["maplen"].(ai.StructV); len(l.F) != 2 || !st.SameValue(l.F[0], st.Resolve(m)) || l.F[1].(ai.Int).Base != n.Base {
		st.Ghost["claimint"] = n
	}
	delete(st.Ghost, "maplen")
	delete(st.Ghost, "miss")
	off := ai.K(n.Off)
	st.Update(n.Base, func(i *ai.SymInfo) { i.Def = &ai.Term{Op: "newindex", Args: []ai.Value{p, off}} })
	ghostAdd(st, "duties", duty("read", p))
	c.count(st, "files claimed")
	st.Progress()
}

// MapLen is the number of entries of a table, which grows with every file that is added to it.
func (c *apiClient) MapLen(st *ai.State, m ai.Value) (ai.Value, bool) {
	n := ai.Int{Base: st.NewSym(ai.SymInfo{T: types.Typ[types.Int], Set: ai.Range(0, 1<<62), Label: "entries"})}
	st.Ghost["maplen"] = ai.StructV{F: []ai.Value{st.Resolve(m), n}}
	return n, true
}

// output puts a text into the result.
func (c *apiClient) output(st *ai.State, m, key, v ai.Value) {
	s := st.Resolve(v)
	d := c.def(st, s)
	if d == nil || d.Op != "printed" {
		c.fail(st, "C10", "output-of-failure", "what is put into the result is not the printed text of a file: %s", st.Describe(v))
		return
	}
	p := d.Args[0]
	if !st.SameValue(p, st.Resolve(key)) {
		c.fail(st, "C32", "output-name", "the output of %s is stored under the name %s", st.Describe(p), st.Describe(key))
	}
	if st.SetOfInt(ai.Int{Base: c.requested(st, p)}).Contains(0) {
		c.fail(st, "C32", "not-requested", "the output of a file is stored that may not have been requested")
	}
	if st.Ghost["files"] == nil {
		st.Ghost["files"] = st.Resolve(m)
	}
	c.discharge(st, "output", p)
	c.count(st, "outputs stored")
}

func (c *apiClient) MapNext(st *ai.State, m ai.Value, t *types.Map) (k, v, done ai.Value, handled bool) {
	if len(ghostSet(st, "pending")) > 0 && len(ghostSet(st, "locks")) == 0 && st.Ghost["ranging"] == nil {
		c.fail(st, "C08", "range-while-running", "a table of the compilation is read while tasks that fill it are running")
	}
	for _, x := range ghostSet(st, "duties") {
		if kind, p := dutyOf(x); kind == "output" {
			c.fail(st, "C32", "output-dropped", "nothing is put out for a requested file although nothing says that it failed: %s", st.Describe(p))
		} else if kind == "replace" {
			c.fail(st, "C08", "import-dropped", "an import is not replaced although its file was parsed: %s", st.Describe(p))
		}
	}
	if !st.DecideTop() {
		delete(st.Ghost, "ranging")
		delete(st.Ghost, "miss")
		return nil, nil, ai.Bool(true), true
	}
	st.Ghost["ranging"] = ai.Tag{S: "yes"}
	var p ai.Str
	basic, _ := t.Key().Underlying().(*types.Basic)
	if basic == nil {
		// A table of imports.
		val := ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "import", Def: &ai.Term{Op: "importvalue", Args: []ai.Value{ai.Lit("")}}}))
		k = ai.SymV{S: st.NewSym(ai.SymInfo{T: t.Key(), Nil: ai.No, Label: "import rule", Def: &ai.Term{Op: "importrule", Args: []ai.Value{val}}})}
		p = c.term(st, "abs", c.term(st, "resolve", val))
	} else {
		x := ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "a file"}))
		p = c.term(st, "abs", x)
		k = p
		if basic.Info()&types.IsInteger != 0 {
			k = ai.Int{Base: st.NewDef(t.Key(), "index", p)}
		}
	}
	switch {
	case isSet(t):
		f := c.requested(st, p)
		st.Update(f, func(i *ai.SymInfo) { i.Set = ai.Range(1, 1) })
		ghostAdd(st, "duties", duty("output", p))
		return k, boolOrUnit(t), ai.Bool(false), true
	case basic == nil:
		ghostAdd(st, "duties", duty("replace", p))
	}
	switch u := t.Elem().Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return k, ai.Int{Base: st.NewDef(t.Elem(), "index", p)}, ai.Bool(false), true
		}
	case *types.Pointer:
		op := ""
		switch {
		case types.Identical(u.Elem(), c.source):
			op = "source"
		case types.Identical(u.Elem(), c.sheet):
			op = "parsed"
		}
		if op != "" {
			s := st.NewDef(t.Elem(), op, p)
			st.Update(s, func(i *ai.SymInfo) { i.Nil = ai.No })
			if op == "parsed" && st.SetOfInt(ai.Int{Base: c.requested(st, p)}).Contains(1) {
				// It may have been requested.
				ghostAdd(st, "duties", duty("output", p))
			}
			return k, ai.SymV{S: s}, ai.Bool(false), true
		}
	}
	return nil, nil, nil, false
}

// ---- locks

func (c *apiClient) lock(st *ai.State, recv ai.Value, on, shared bool) ai.Value {
	p, ok := st.Resolve(recv).(ai.Ptr)
	if !ok {
		st.Undecided("lock of %T", recv)
	}
	delete(st.Ghost, "miss")
	delete(st.Ghost, "maplen")
	if on {
		if ghostHas(st, "locks", p) {
			c.fail(st, "C11", "deadlock", "a lock is taken that is held already: the compilation hangs")
		}
		ghostAdd(st, "locks", p)
		c.havoc(st, p)
		return ai.Nil{}
	}
	if !ghostDel(st, "locks", p) {
		c.fail(st, "C11", "unlock", "a lock is released that is not held: the compilation crashes")
	}
	c.unique(st, p)
	c.havoc(st, p)
	return ai.Nil{}
}

// parent is the object that has a lock as a field.
func lockParent(st *ai.State, p ai.Ptr) (ai.Ptr, *types.Struct, bool) {
	if len(p.Path) != 1 {
		return ai.Ptr{}, nil, false
	}
	t := st.Object(p.Obj).T
	if t == nil {
		return ai.Ptr{}, nil, false
	}
	str, ok := t.Underlying().(*types.Struct)
	return ai.Ptr{Obj: p.Obj}, str, ok
}

// havoc forgets what other tasks may change.
func (c *apiClient) havoc(st *ai.State, p ai.Ptr) {
	q, str, ok := lockParent(st, p)
	if !ok {
		return
	}
	for i := 0; i < str.NumFields(); i++ {
		if _, ok := str.Field(i).Type().Underlying().(*types.Basic); ok {
			st.StorePtr(ai.Ptr{Obj: q.Obj, Path: []ai.Sel{{Field: i}}}, st.Unknown(str.Field(i).Type(), str.Field(i).Name()))
		}
	}
}

// unique checks that an index that was given to a file is not given to another.
func (c *apiClient) unique(st *ai.State, p ai.Ptr) {
	n, ok := st.Ghost["claimint"].(ai.Int)
	if !ok {
		return
	}
	delete(st.Ghost, "claimint")
	if q, str, ok := lockParent(st, p); ok {
		for i := 0; i < str.NumFields(); i++ {
			if b, ok := str.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				f, ok := st.Resolve(st.LoadPtr(ai.Ptr{Obj: q.Obj, Path: []ai.Sel{{Field: i}}}, str.Field(i).Type())).(ai.Int)
				if ok && f.Base == n.Base && (n.Off >= 0 && f.Off > n.Off || n.Off > 0 && f.Off >= n.Off) {
					return
				}
			}
		}
	}
	c.fail(st, "C11", "same-index", "two files may be given the same index")
}

func lockName(st *ai.State, p ai.Ptr) string {
	if q, str, ok := lockParent(st, p); ok {
		return ai.TypeName(st.Object(q.Obj).T) + "." + str.Field(p.Path[0].Field).Name()
	}
	return "a lock of " + st.Fn.String()
}

// ---- tasks

// What a task does not see of the one that starts it.
var stashed = []string{"count:Imports", "imports", "parsed", "resolved", "claimint", "miss", "nosource", "maplen", "pending", "locks", "rlocks", "open", "task", "done"}

func (c *apiClient) spawn(st *ai.State, f ai.Value, args []ai.Value, group ai.Value, errs bool) ai.Value {
	stash := map[string]ai.Value{}
	if c.onSpawn != nil {
		stash["mine"] = ai.StructV{F: c.onSpawn(st, f, args)}
	}
	for _, k := range stashed {
		if v, ok := st.Ghost[k]; ok {
			stash[k] = v
			delete(st.Ghost, k)
		}
	}
	var mine, others []ai.Value
	for _, x := range ghostSet(st, "duties") {
		if kind, _ := dutyOf(x); kind == "output" || kind == "replace" {
			mine = append(mine, x)
		} else {
			others = append(others, x)
		}
	}
	stash["others"] = ai.StructV{F: others}
	ghostPut(st, "duties", mine)
	st.Ghost["task"] = ai.Tag{S: "yes"}
	if group != nil {
		stash["group"] = group
	}
	st.Stash = stash
	goStmt := group == nil
	c.count(st, "tasks")
	return ai.CallInstead{Fn: f, Args: args, Then: func(n *ai.State, result ai.Value) ai.Value {
		stash := n.Stash
		n.Stash = nil
		if len(ghostSet(n, "locks")) > 0 {
			c.fail(n, "C11", "lock-kept", "a task ends while it holds a lock: the next one that needs it waits for ever")
		}
		if r := n.Resolve(result); errs && r != nil {
			if _, ok := r.(ai.TupleV); !ok && !n.DecideNil(r) {
				c.fail(n, "C10", "group-error", "a task returns its error to the group, which keeps only the first one of all tasks: %s", n.Describe(r))
			}
		}
		c.endTask(n)
		resolved := append(append([]ai.Value(nil), ghostSet(n, "resolved")...), setOf(stash["resolved"])...)
		pending := ghostSet(n, "pending")
		if goStmt && len(ghostSet(n, "done")) == 0 {
			c.fail(n, "C08", "not-waited-for", "a goroutine is started that nothing waits for")
		}
		duties := append(append([]ai.Value(nil), ghostSet(n, "duties")...), setOf(stash["others"])...)
		for _, k := range stashed {
			delete(n.Ghost, k)
			if v, ok := stash[k]; ok {
				n.Ghost[k] = v
			}
		}
		ghostPut(n, "resolved", resolved)
		ghostPut(n, "duties", duties)
		for _, p := range pending {
			ghostAdd(n, "pending", p)
		}
		if g, ok := stash["group"]; ok {
			ghostAdd(n, "pending", g)
		}
		if c.onJoin != nil {
			c.onJoin(n, setOf(stash["mine"]))
		}
		return ai.Nil{}
	}}
}

func setOf(v ai.Value) []ai.Value {
	s, _ := v.(ai.StructV)
	return s.F
}

// endTask checks what a task has to have done at its end.
func (c *apiClient) endTask(st *ai.State) {
	for _, x := range ghostSet(st, "open") {
		c.fail(st, "C10", "swallowed:"+st.Info(x.(ai.SymV).S).Label, "%s is neither reported nor returned", st.Info(x.(ai.SymV).S).Label)
	}
	for _, x := range ghostSet(st, "duties") {
		kind, p := dutyOf(x)
		switch kind {
		case "request":
			c.fail(st, "C32", "no-request", "a file is processed that should be an output, and is not put into the set of outputs: %s", st.Describe(p))
		case "read":
			c.fail(st, "C08", "not-read", "a file is given an index, but it is not read: %s", st.Describe(p))
		case "parse":
			c.fail(st, "C08", "not-parsed", "a file is read, but not parsed: %s", st.Describe(p))
		case "store", "source":
			c.fail(st, "C32", "not-stored", "a file is parsed, but what becomes of it is not stored (%s): %s", kind, st.Describe(p))
		case "bind":
			c.fail(st, "C08", "not-bound", "an import is resolved and its file processed, but the import is not bound to it: %s", st.Describe(p))
		}
	}
	c.match(st)
	if l, ok := st.Ghost["imports"]; ok {
		if !c.complete(st, l, "Imports") {
			c.fail(st, "C08", "imports-left-out", "the imports of a parsed file are not all processed")
		}
	}
}

func (c *apiClient) complete(st *ai.State, list ai.Value, label string) bool {
	var n ai.Int
	switch l := st.Resolve(list).(type) {
	case ai.SliceV:
		n = st.SliceLen(l)
	case ai.SymV:
		if l, ok := st.Resolve(l).(ai.SliceV); ok {
			n = st.SliceLen(l)
		}
	case ai.Nil:
	}
	k, _ := st.Ghost["count:"+label].(ai.Int)
	return st.Equal(st.ResInt(k), st.ResInt(n)) == ai.Yes
}

// match finds the list elements whose processing has begun.
func (c *apiClient) match(st *ai.State) {
	for again := true; again; {
		again = false
		for _, v := range ghostSet(st, "resolved") {
			label, idx, ok := c.find(st, v)
			if !ok {
				continue
			}
			k, _ := st.Ghost["count:"+label].(ai.Int)
			switch st.Equal(st.ResInt(idx), st.ResInt(k)) {
			case ai.Yes:
				st.Ghost["count:"+label] = st.ResInt(k).Add(1)
				ghostDel(st, "resolved", v)
				again = true
			default:
				if st.Less(st.ResInt(idx), st.ResInt(k), false) == ai.Yes {
					ghostDel(st, "resolved", v)
					again = true
				}
			}
			if again {
				break
			}
		}
	}
}

// find looks for a value in the list of entries and in that of the imports of the current file.
func (c *apiClient) find(st *ai.State, v ai.Value) (string, ai.Int, bool) {
	for _, l := range [][2]string{{"entries", "Entry"}, {"imports", "Imports"}} {
		s, ok := st.Resolve(st.Ghost[l[0]]).(ai.SliceV)
		if !ok {
			continue
		}
		for _, e := range st.Object(s.Obj).Elems {
			if st.KnownElem(s.Obj, e.Idx) {
				continue // a caller of this function processes the element
			}
			x := st.Resolve(e.V)
			if s, ok := x.(ai.StructV); ok {
				for _, f := range s.F {
					if st.SameValue(st.Resolve(f), v) {
						return l[1], e.Idx, true
					}
				}
			}
			if st.SameValue(x, v) {
				return l[1], e.Idx, true
			}
		}
	}
	return "", ai.Int{}, false
}

func (c *apiClient) LoopHead(st *ai.State, head *ssa.BasicBlock) {
	st.ForgetElements(func(list ai.ObjID, idx ai.Int) bool {
		for k, v := range st.Ghost {
			n, ok := v.(ai.Int)
			if !ok || !strings.HasPrefix(k, "count:") {
				continue
			}
			if st.ResInt(n) == st.ResInt(idx) {
				return true
			}
		}
		return false
	})
}

func (c *apiClient) LoopBack(st *ai.State, head *ssa.BasicBlock) {
	c.match(st)
}

// ---- calls

func (c *apiClient) failure(st *ai.State, label string) ai.Value {
	e := ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No, Label: label})}
	ghostAdd(st, "open", e)
	return e
}

func (c *apiClient) importRules(st *ai.State) (ai.Int, bool) {
	i, ok := st.Resolve(st.Ghost["=import rules"]).(ai.Int)
	return i, ok
}

func (c *apiClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	two := func(a, b ai.Value) (ai.Value, bool) { return ai.TupleV{V: []ai.Value{a, b}}, true }
	name := call.Name
	if _, ok := call.In.(*ssa.Go); ok && call.Fn != nil && st.Ghost["going"] == nil {
		st.Ghost["going"] = ai.Tag{S: "yes"}
		// The arguments include the free variables.
		n := len(call.Fn.Params)
		return c.spawn(st, ai.FuncV{Fn: call.Fn, B: call.Args[n:]}, call.Args[:n], nil, false), true
	}
	delete(st.Ghost, "going")
	if call.Method != nil {
		return c.method(st, call)
	}
	arg := func(i int) ai.Value { return st.Resolve(call.Args[i]) }
	switch name {
	case "(*golang.org/x/sync/errgroup.Group).Go", "(*sync.WaitGroup).Go":
		return c.spawn(st, arg(1), nil, arg(0), strings.Contains(name, "errgroup")), true
	case "(*sync.WaitGroup).Add":
		ghostAdd(st, "pending", arg(0))
		return ai.Nil{}, true
	case "(*sync.WaitGroup).Done":
		ghostAdd(st, "done", arg(0))
		return ai.Nil{}, true
	case "(*golang.org/x/sync/errgroup.Group).SetLimit":
		return ai.Nil{}, true
	case "(*golang.org/x/sync/errgroup.Group).Wait", "(*sync.WaitGroup).Wait":
		if len(ghostSet(st, "locks")) > 0 {
			c.fail(st, "C11", "wait-with-lock", "a lock is held while waiting for tasks, which may need it")
		}
		ghostDel(st, "pending", arg(0))
		return ai.Nil{}, true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return c.lock(st, arg(0), true, false), true
	case "(*sync.RWMutex).RLock":
		return c.lock(st, arg(0), true, true), true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return c.lock(st, arg(0), false, false), true
	case "(*sync.RWMutex).RUnlock":
		return c.lock(st, arg(0), false, true), true
	case "path/filepath.Abs":
		s, ok := arg(0).(ai.Str)
		if !ok {
			st.Undecided("argument of Abs")
		}
		if c.defIs(st, s, "abs") {
			return two(s, ai.Nil{})
		}
		if c.defIs(st, s, "entry") {
			ghostAdd(st, "resolved", s)
		}
		if !st.DecideTop() {
			return two(ai.Lit(""), c.failure(st, "the failure to make a path absolute"))
		}
		p := c.term(st, "abs", s)
		if c.defIs(st, s, "entry") {
			ghostAdd(st, "duties", duty("request", p))
		}
		if c.defIs(st, s, "resolve") {
			rules, ok := c.importRules(st)
			if !ok {
				st.Undecided("the import rules")
			}
			if st.DecideEqual(rules, ai.K(c.follow)) {
				ghostAdd(st, "duties", duty("request", p))
			}
			ghostAdd(st, "duties", duty("bind", p))
		}
		return two(p, ai.Nil{})
	case "path/filepath.Dir":
		return c.term(st, "dir", arg(0)), true
	case "path/filepath.Base", "path/filepath.Ext", "path/filepath.Clean", "path/filepath.ToSlash":
		return c.term(st, name, arg(0)), true
	case "io/ioutil.ReadFile", "os.ReadFile":
		p, ok := arg(0).(ai.Str)
		if !ok {
			st.Undecided("argument of ReadFile")
		}
		if !c.discharge(st, "read", p) {
			c.fail(st, "C11", "read-unclaimed", "a file is read that this task has not been the first to give an index: it may be processed more than once: %s", st.Describe(p))
		}
		c.count(st, "files read")
		if !st.DecideTop() {
			return two(ai.Nil{}, c.failure(st, "the failure to read a file"))
		}
		ghostAdd(st, "duties", duty("parse", p))
		ghostAdd(st, "duties", duty("source", p))
		return two(c.term(st, "content", p), ai.Nil{})
	case "github.com/samsarahq/go/oops.Wrapf":
		if st.DecideNil(arg(0)) {
			return ai.Nil{}, true
		}
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No, Label: "wrapped error"})}, true
	case "github.com/samsarahq/go/oops.Errorf", "fmt.Errorf", "errors.New":
		return ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No, Label: "new error"})}, true
	}
	if call.Fn == nil {
		return nil, false
	}
	switch {
	case c.is(call.Fn, "internal/parser", "Parse"):
		return c.parse(st, call)
	case c.is(call.Fn, "internal/transformer", "Transform"):
		return c.transform(st, call)
	case c.is(call.Fn, "internal/printer", "Print"):
		return c.print(st, call)
	}
	return nil, false
}

func (c *apiClient) is(fn *ssa.Function, pkg, name string) bool {
	return fn.Name() == name && fn.Signature.Recv() == nil && fnPackage(fn) == c.m.prog.Pkgs[pkg].Pkg
}

func (c *apiClient) method(st *ai.State, call *ai.Call) (ai.Value, bool) {
	recv := st.Resolve(call.Args[0])
	switch call.Method.Name() {
	case "AddError":
		if _, isNil := recv.(ai.Nil); isNil {
			return nil, false
		}
		if i, ok := recv.(ai.Iface); ok {
			named, ok := i.T.(*types.Named)
			if !ok || named.Obj().Pkg() != c.m.prog.Pkgs["internal/logging"].Pkg {
				return nil, false
			}
		}
		c.report(st, recv, st.Resolve(call.Args[1]))
		return ai.Nil{}, true
	case "Resolve":
		return c.resolve(st, call)
	case "Error":
		return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "message"})), true
	}
	return nil, false
}

// report is a call of the user's reporter.
func (c *apiClient) report(st *ai.State, recv, err ai.Value) {
	c.reports++
	if st.DecideNil(err) {
		c.fail(st, "C10", "nil-error", "the reporter is called without an error")
	}
	want := st.Resolve(st.Ghost["reporter"])
	if !st.DecideNil(want) {
		if !st.SameValue(recv, want) {
			c.fail(st, "C09", "other-reporter", "a diagnostic goes to %s, not to the reporter of the options", st.Describe(recv))
		}
	} else if _, ok := recv.(ai.Iface); !ok {
		c.fail(st, "C09", "other-reporter", "without a reporter in the options, a diagnostic does not go to the default reporter")
	}
	if st.Ghost["task"] != nil || len(ghostSet(st, "pending")) > 0 {
		held := map[string]bool{}
		for _, l := range ghostSet(st, "locks") {
			held[lockName(st, l.(ai.Ptr))] = true
		}
		if len(held) == 0 {
			c.fail(st, "C09", "unlocked", "the reporter is called without a lock while several tasks may run")
		}
		if c.locks == nil {
			c.locks = held
		}
		for l := range c.locks {
			if !held[l] {
				delete(c.locks, l)
			}
		}
		if len(c.locks) == 0 {
			c.locks = map[string]bool{}
			c.fail(st, "C09", "different-locks", "the reporter is called under different locks")
		}
	}
	delete(st.Ghost, "open")
}

func (c *apiClient) resolve(st *ai.State, call *ai.Call) (ai.Value, bool) {
	spec, dir := st.Resolve(call.Args[1]), st.Resolve(call.Args[2])
	d := c.def(st, spec)
	if d == nil || d.Op != "importvalue" || len(d.Args) == 0 {
		c.fail(st, "C08", "resolves-other", "something else than the text of an import is resolved: %s", st.Describe(spec))
		return ai.TupleV{V: []ai.Value{ai.SymStr(st.NewSym(ai.SymInfo{T: stringType})), st.Unknown(errorType, "error")}}, true
	}
	if !st.SameValue(dir, c.term(st, "dir", d.Args[0])) {
		c.fail(st, "C08", "resolve-dir", "an import is resolved relative to %s, not to the directory of the file that has it", st.Describe(dir))
	}
	ghostAdd(st, "resolved", spec)
	c.count(st, "imports resolved")
	// Which file has the import does not matter from here.
	st.Update(spec.(ai.Str).Single(), func(i *ai.SymInfo) { i.Def = &ai.Term{Op: "importvalue"} })
	if !st.DecideTop() {
		// A resolver of the user may return a path as well.
		return ai.TupleV{V: []ai.Value{ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "what a resolver that fails returns"})), c.failure(st, "the failure to resolve an import")}}, true
	}
	return ai.TupleV{V: []ai.Value{c.term(st, "resolve", spec), ai.Nil{}}}, true
}

// checkSource checks that a source is the content of its path.
func (c *apiClient) checkSource(st *ai.State, v ai.Value) ai.Value {
	p := c.mustSubject(st, v, "a source")
	if content, ok := fieldOf(st, v, "Content"); ok {
		if !st.SameValue(content, c.term(st, "content", p)) {
			c.fail(st, "C10", "content", "the content of a source is not that of its file")
		}
	}
	return p
}

func (c *apiClient) parse(st *ai.State, call *ai.Call) (ai.Value, bool) {
	p := c.checkSource(st, st.Resolve(call.Args[0]))
	if !c.discharge(st, "parse", p) {
		c.fail(st, "C11", "parse-again", "a file may be parsed more than once: %s", st.Describe(p))
	}
	c.count(st, "files parsed")
	if !st.DecideTop() {
		c.discharge(st, "source", p)
		return ai.TupleV{V: []ai.Value{ai.Nil{}, c.failure(st, "the failure to parse a file")}}, true
	}
	s := st.NewDef(call.Fn.Signature.Results().At(0).Type(), "parsed", p)
	st.Update(s, func(i *ai.SymInfo) { i.Nil = ai.No })
	ss := ai.SymV{S: s}
	st.Ghost["parsed"] = p
	imports, ok := fieldOf(st, ss, "Imports")
	if !ok {
		st.Undecided("the imports of a stylesheet")
	}
	st.Ghost["imports"] = imports
	st.Ghost["count:Imports"] = ai.K(0)
	ghostAdd(st, "duties", duty("store", p))
	return ai.TupleV{V: []ai.Value{ss, ai.Nil{}}}, true
}

func (c *apiClient) transform(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if !c.defIs(st, call.Args[0], "parsed") {
		c.fail(st, "C32", "transform-other", "what is transformed is not a parsed file")
	}
	p := c.mustSubject(st, call.Args[0], "the stylesheet that is transformed")
	opts, ok := st.Resolve(call.Args[1]).(ai.StructV)
	str, ok2 := call.Fn.Signature.Params().At(1).Type().Underlying().(*types.Struct)
	if !ok || !ok2 {
		st.Undecided("the options of Transform")
	}
	var reporter ai.Value
	for i := range opts.F {
		v := st.Resolve(opts.F[i])
		switch str.Field(i).Name() {
		case "OriginalSource":
			if q := c.mustSubject(st, v, "the source of the stylesheet that is transformed"); !st.SameValue(p, q) {
				c.fail(st, "C32", "transform-source", "a file is transformed with the source of another")
			}
		case "Options":
			if !st.SameValue(v, st.Resolve(st.Ghost["transforms"])) {
				c.fail(st, "C32", "transform-options", "a file is not transformed with the transforms of the options")
			}
		case "Reporter":
			reporter = v
		}
	}
	s := st.NewDef(call.Fn.Signature.Results().At(0).Type(), "transformed", p)
	st.Update(s, func(i *ai.SymInfo) { i.Nil = ai.No })
	c.count(st, "files transformed")
	if !st.DecideTop() {
		return ai.SymV{S: s}, true
	}
	// The transformer reports something.
	e := c.failure(st, "what the transformer reports")
	switch r := reporter.(type) {
	case ai.Iface:
		if named, ok := r.T.(*types.Named); ok && named.Obj().Pkg() == c.m.prog.Pkgs["internal/logging"].Pkg {
			c.report(st, r, e)
			return ai.SymV{S: s}, true
		}
		f := st.M.Prog.LookupMethod(r.T, nil, "AddError")
		if f == nil {
			st.Undecided("the reporter that is given to Transform")
		}
		typ := call.Fn.Signature.Results().At(0).Type()
		st.Stash = map[string]ai.Value{"p": p}
		return ai.CallInstead{Fn: ai.FuncV{Fn: f}, Args: []ai.Value{r.V, e}, Then: func(n *ai.State, _ ai.Value) ai.Value {
			s := n.NewDef(typ, "transformed", n.Stash["p"])
			n.Update(s, func(i *ai.SymInfo) { i.Nil = ai.No })
			n.Stash = nil
			return ai.SymV{S: s}
		}}, true
	case ai.SymV:
		if st.DecideNil(r) {
			c.fail(st, "C09", "nil-reporter", "the transformer is given no reporter")
		}
		c.report(st, r, e)
		return ai.SymV{S: s}, true
	case ai.Nil:
		c.fail(st, "C09", "nil-reporter", "the transformer is given no reporter")
	}
	st.Undecided("the reporter that is given to Transform")
	return nil, false
}

func (c *apiClient) print(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if !c.defIs(st, call.Args[0], "transformed") {
		c.fail(st, "C32", "print-other", "what is printed is not a transformed file: %s", st.Describe(call.Args[0]))
	}
	p := c.mustSubject(st, call.Args[0], "the stylesheet that is printed")
	opts, ok := st.Resolve(call.Args[1]).(ai.StructV)
	str, ok2 := call.Fn.Signature.Params().At(1).Type().Underlying().(*types.Struct)
	if !ok || !ok2 {
		st.Undecided("the options of Print")
	}
	for i := range opts.F {
		if str.Field(i).Name() == "OriginalSource" {
			if q := c.mustSubject(st, opts.F[i], "the source of the stylesheet that is printed"); !st.SameValue(p, q) {
				c.fail(st, "C32", "print-source", "a file is printed with the source of another")
			}
		}
	}
	c.count(st, "files printed")
	if !st.DecideTop() {
		c.discharge(st, "output", p)
		return ai.TupleV{V: []ai.Value{ai.Lit(""), c.failure(st, "the failure to print a file")}}, true
	}
	return ai.TupleV{V: []ai.Value{c.term(st, "printed", p), ai.Nil{}}}, true
}

// ---- ends of functions

func (c *apiClient) Exit(st *ai.State) {
	if st.Sum == st.M.Top {
		c.match(st)
	}
	if st.Panic() != nil {
		msg, ok := ai.RuntimePanic(st.Panic())
		if !ok {
			msg = "it panics"
		}
		c.fail(st, "C10", "panics", "the compilation crashes: %s", msg)
		st.Infeasible()
	}
	// Tasks of a group that ends with this function.
	for _, g := range ghostSet(st, "pending") {
		if p, ok := g.(ai.Ptr); ok && len(p.Path) == 0 && st.Local(p.Obj) {
			c.fail(st, "C08", "not-waited-for", "%s ends without waiting for the tasks that it has started", st.Fn)
		}
	}
	if st.Sum != st.M.Top {
		return
	}
	c.counts["ends of Compile"]++
	c.endTask(st)
	if len(ghostSet(st, "pending")) > 0 {
		c.fail(st, "C08", "not-waited-for", "Compile ends without waiting for all tasks")
	}
	if len(ghostSet(st, "locks")) > 0 {
		c.fail(st, "C11", "lock-kept", "Compile ends while it holds a lock")
	}
	if !c.complete(st, st.Ghost["entries"], "Entry") {
		c.fail(st, "C08", "entries-left-out", "the entries are not all processed")
	}
	if st.Ghost["ranging"] != nil {
		c.fail(st, "C32", "range-cut", "the iteration over a table of the compilation ends early")
	}
	for _, x := range ghostSet(st, "duties") {
		if kind, p := dutyOf(x); kind == "output" {
			c.fail(st, "C32", "output-dropped", "nothing is put out for a requested file although nothing says that it failed: %s", st.Describe(p))
		} else if kind == "replace" {
			c.fail(st, "C08", "import-dropped", "an import is not replaced although its file was parsed: %s", st.Describe(p))
		}
	}
	if c.prop == "C32" {
		res := st.Resolve(st.Result())
		if _, isNil := res.(ai.Nil); isNil {
			c.fail(st, "C32", "no-result", "Compile returns no result")
		}
		if want, ok := st.Ghost["files"]; ok {
			if got, ok := fieldOf(st, res, "Files"); ok && !st.SameValue(got, st.Resolve(want)) {
				c.fail(st, "C32", "other-result", "the outputs are not stored in the result that is returned")
			}
		}
	}
	st.Infeasible()
}

// runAPI analyses Compile with a client that builds on c; nil: it cannot.
func runAPI(p *Program, r *Report, c *apiClient, client ai.Client) *ai.Machine {
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return nil
	}
	c.astClient = astClient{m}
	root := p.Pkgs[""]
	if root == nil || root.Func("Compile") == nil {
		r.Violation("anchor", "cssc.Compile is gone")
		return nil
	}
	fn := root.Func("Compile")
	c.source, c.sheet = p.Named("internal/sources", "Source"), p.Named("internal/ast", "Stylesheet")
	tr := p.Pkgs["transforms"]
	if c.source == nil || c.sheet == nil || tr == nil || len(fn.Params) != 1 {
		r.Violation("anchor", "Compile, sources.Source, ast.Stylesheet or package transforms is not what it was")
		return nil
	}
	konst := func(name string) int64 {
		k, ok := tr.Members[name].(*ssa.NamedConst)
		if !ok {
			r.Violation("anchor", "transforms.%s is gone", name)
			return -1
		}
		n, _ := constant.Int64Val(constant.ToInt(k.Value.Value))
		return n
	}
	c.follow, c.inline = konst("ImportRulesFollow"), konst("ImportRulesInline")
	mach := ai.NewMachine(p.Prog, client)
	mach.InRepo = inRepo
	mach.PosOf = p.Pos
	mach.Debug = verbose
	mach.Limit = 1200
	st := mach.NewState()
	str, ok := fn.Params[0].Type().Underlying().(*types.Struct)
	if !ok {
		r.Violation("anchor", "cssc.Options is not what it was")
		return nil
	}
	opts := ai.StructV{}
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		v := st.Unknown(f.Type(), "Options."+f.Name())
		opts.F = append(opts.F, v)
		switch f.Name() {
		case "Entry":
			st.Ghost["entries"] = v
		case "Reporter":
			st.Ghost["reporter"] = v
		case "Transforms":
			st.Ghost["transforms"] = v
			if ts, ok := f.Type().Underlying().(*types.Struct); ok {
				for j := 0; j < ts.NumFields(); j++ {
					if ts.Field(j).Name() == "ImportRules" {
						st.Ghost["=import rules"] = v.(ai.StructV).F[j]
					}
				}
			}
		}
	}
	for _, k := range []string{"entries", "reporter", "transforms", "=import rules"} {
		if st.Ghost[k] == nil {
			r.Violation("anchor", "cssc.Options has no %s", k)
			return nil
		}
	}
	st.Ghost["count:Entry"] = ai.K(0)
	mach.Start(fn, st, []ai.Value{opts}, nil)
	return mach
}

func checkAPI(p *Program, r *Report, prop string) {
	rules := map[string]string{
		"C08": "every entry and every import of every parsed file is processed by a task of its own, bound to the file that it resolves to, and every group of tasks is waited for before its function ends and before tables are read",
		"C09": "every call of a reporter while tasks may run is made with the same lock held, and its receiver is the reporter of the options (or the default one)",
		"C10": "on every path, each failure of a call reaches the reporter before its task ends; only printed text becomes output; nothing panics",
		"C11": "a file is read and parsed only by the task that has given it its index, under the lock under which it looked that there was none; locks are released; nothing waits while it holds a lock; no cycle of calls goes on without giving an index",
		"C32": "a file is put out under its absolute path, if and only if it was requested; it is requested if and only if it is an entry or an import that is followed",
	}
	r.Rule = rules[prop]
	r.Explanation = "Abstract interpretation of Compile and all functions and closures of the package, in SSA form, with unknown options and symbolic files, to a fixpoint over all paths and over recursion. A task runs when it is started; tables are known only by what all their updates keep (key and value are about the same file), and what other tasks may change is forgotten whenever a lock is taken or released. Calls of the parser, transformer, printer, resolver, file system and reporter may each fail."
	r.Assumptions = []string{"tables of the compilation are maps; tasks are started by errgroup, WaitGroup or go statements", "data races are excluded by C07", "the resolver, the parser, the transformer and the printer are decided by their own checks"}
	c := &apiClient{prop: prop, counts: map[string]int{}}
	mach := runAPI(p, r, c, c)
	if mach == nil {
		return
	}
	for _, f := range mach.Findings {
		r.Violation(f.Key, "%s", f.Msg)
	}
	for _, t := range mach.Trouble {
		r.Violation("undecided:"+t, "%s", t)
	}
	if prop == "C11" {
		for _, cyc := range mach.Cycles(true) {
			r.Violation("endless:"+cyc, "a cycle of calls that gives no file an index: %s", cyc)
		}
		tc := transformChecks["C11"]
		r.Rule += "; " + tc.rule
		r.Explanation += " " + tc.what
		runTransform(p, r, "C11", tc)
	}
	r.Counts["calls of the reporter"] = c.reports
	var names []string
	for k := range c.counts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		r.Counts[k] = c.counts[k]
	}
	for _, k := range []string{"ends of Compile", "tasks", "files claimed", "files read", "files parsed", "imports resolved", "imports bound", "outputs requested", "outputs stored", "files transformed", "files printed"} {
		r.Require(k, c.counts[k], 1)
	}
	r.Require("calls of the reporter", c.reports, 5)
	r.Counts["abstract states"] = len(mach.Nodes)
	r.Counts["steps"] = mach.Steps
}
