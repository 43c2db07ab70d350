package main

import (
	"fmt"
	"go/types"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C20, C21, C22: the import resolver, over a symbolic file system.

func init() {
	for _, id := range []string{"C20", "C21", "C22"} {
		id := id
		register(id, func(p *Program, r *Report) { checkResolver(p, r, id) })
	}
}

type resolverClient struct {
	astClient
	prop  string
	sccs  map[*ssa.Function]bool
	exits int
	oks   int
	steps int
}

// States of a path in the file system.
const (
	fsFile = iota
	fsDir
	fsMissing
	fsError
)

func (c *resolverClient) fail(st *ai.State, prop, key, format string, args ...interface{}) {
	if prop == c.prop {
		st.M.Report(key, "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
	}
	st.Infeasible()
}

var (
	stringType = types.Typ[types.String]
	errorType  = types.Universe.Lookup("error").Type()
)

// path is a canonical path: elements and a text behind the last one.
type fsPath struct {
	elems  [][]ai.Value
	suffix string
}

func (p fsPath) join(more ...[]ai.Value) fsPath {
	out := fsPath{elems: append([][]ai.Value(nil), p.elems...), suffix: p.suffix}
	if p.suffix != "" && len(more) > 0 {
		out.elems[len(out.elems)-1] = append(append([]ai.Value(nil), out.elems[len(out.elems)-1]...), ai.Tag{S: "+" + p.suffix})
		out.suffix = ""
	}
	out.elems = append(out.elems, more...)
	return out
}

func (p fsPath) key() []ai.Value {
	var out []ai.Value
	for _, e := range p.elems {
		out = append(out, e...)
		out = append(out, ai.Tag{S: "/"})
	}
	return append(out, ai.Tag{S: "+" + p.suffix})
}

func lits(s string) [][]ai.Value {
	var out [][]ai.Value
	for _, e := range strings.Split(s, "/") {
		if e != "" && e != "." {
			out = append(out, []ai.Value{ai.Lit(e)})
		}
	}
	return out
}

// canon is the canonical form of a string that is used as a path.
func (c *resolverClient) canon(st *ai.State, s ai.Str) fsPath {
	s = st.ResStr(s)
	var out fsPath
	for i, p := range s.P {
		if p.Sym == 0 {
			l := p.Lit
			if i == 0 {
				if strings.HasPrefix(l, "/") {
					out.elems = append(out.elems, []ai.Value{ai.Lit("/")})
				}
				out.elems = append(out.elems, lits(l)...)
				continue
			}
			if k := strings.IndexByte(l, '/'); k == 0 {
				if out.suffix != "" {
					out = out.join()
				}
				rest := lits(l)
				out = out.join(rest...)
				continue
			}
			out.suffix += l
			continue
		}
		var e fsPath
		d := st.Info(p.Sym).Def
		switch {
		case d != nil && d.Op == "join":
			for _, a := range d.Args {
				x := c.canon(st, a.(ai.Str))
				if len(x.elems) == 1 && len(x.elems[0]) == 1 && len(e.elems) > 0 {
					if l, ok := x.elems[0][0].(ai.Str); ok {
						if t, ok := l.Const(); ok && t == "/" {
							continue
						}
					}
				}
				e = e.join(x.elems...)
				e.suffix = x.suffix
			}
		case d != nil && d.Op == "clean":
			e = c.canon(st, d.Args[0].(ai.Str))
		case d != nil && (d.Op == "abs" || d.Op == "dir"):
			x := c.canon(st, d.Args[0].(ai.Str))
			e.elems = [][]ai.Value{append(append([]ai.Value{ai.Tag{S: d.Op + "("}}, x.key()...), ai.Tag{S: ")"})}
		case d != nil && d.Op == "style":
			e.elems = [][]ai.Value{append(append([]ai.Value{ai.Tag{S: "style("}}, d.Args...), ai.Tag{S: ")"})}
		default:
			e.elems = [][]ai.Value{{ai.SymStr(p.Sym)}}
		}
		last := i > 0 && s.P[i-1].Sym == 0 && strings.HasSuffix(s.P[i-1].Lit, "/")
		if len(out.elems) > 0 && !last {
			// Text that runs on.
			n := len(out.elems) - 1
			run := append(append([]ai.Value(nil), out.elems[n]...), ai.Tag{S: "+" + out.suffix})
			out.elems = append(append([][]ai.Value(nil), out.elems[:n]...), append(run, e.key()...))
			out.suffix = ""
			continue
		}
		out = out.join(e.elems...)
		out.suffix = e.suffix
	}
	return out
}

func (c *resolverClient) canonOf(st *ai.State, v ai.Value) fsPath {
	s, ok := st.Resolve(v).(ai.Str)
	if !ok {
		st.Undecided("a path that is not known")
	}
	return c.canon(st, s)
}

func intFact(st *ai.State, op string, n int64, args []ai.Value) ai.Int {
	d := st.NewDef(types.Typ[types.Int], op, args...)
	if st.Info(d).Set == nil {
		st.Update(d, func(i *ai.SymInfo) { i.Set = ai.Range(0, n-1) })
	}
	return ai.Int{Base: d}
}

// state is what there is at a path. It forks where this is not known yet.
func (c *resolverClient) state(st *ai.State, p fsPath) int64 {
	f := intFact(st, "fs", 4, p.key())
	for k := int64(0); k < 3; k++ {
		if st.DecideEqual(f, ai.K(k)) {
			return k
		}
	}
	return 3
}

func (c *resolverClient) err(st *ai.State, label string, def *ai.Term) ai.Value {
	return ai.SymV{S: st.NewSym(ai.SymInfo{T: errorType, Nil: ai.No, Label: label, Def: def})}
}

func (c *resolverClient) str(st *ai.State, op string, args ...ai.Value) ai.Str {
	return ai.SymStr(st.NewDef(stringType, op, args...))
}

func (c *resolverClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	two := func(a, b ai.Value) (ai.Value, bool) { return ai.TupleV{V: []ai.Value{a, b}}, true }
	name := call.Name
	if call.Method != nil {
		recv := st.Resolve(call.Args[0])
		if s, ok := recv.(ai.SymV); ok {
			d := st.Info(s.S).Def
			if d != nil && (d.Op == "info" || d.Op == "mode") {
				return c.infoCall(st, call.Method.Name(), d)
			}
		}
		switch call.Method.Name() {
		case "Error":
			return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "message"})), true
		}
		return nil, false
	}
	switch name {
	case "path/filepath.Join", "path.Join":
		segs, ok := st.SegsOf(call.Args[0])
		if !ok {
			return nil, false
		}
		var args []ai.Value
		for _, s := range segs {
			a, ok := st.Resolve(s.Elem).(ai.Str)
			if !s.IsElem() || !ok {
				return nil, false
			}
			if t, ok := a.Const(); ok && t == "" {
				continue
			}
			args = append(args, a)
		}
		return c.str(st, "join", args...), true
	case "path/filepath.Clean":
		return c.str(st, "clean", st.Resolve(call.Args[0])), true
	case "path/filepath.Dir":
		return c.str(st, "dir", st.Resolve(call.Args[0])), true
	case "path/filepath.Base", "path/filepath.Ext", "path/filepath.VolumeName":
		return c.str(st, name, st.Resolve(call.Args[0])), true
	case "path/filepath.Abs":
		if st.DecideTop() {
			abs := c.str(st, "abs", st.Resolve(call.Args[0]))
			st.AssumeStrEqual(abs, ai.Lit(""), false)
			return two(abs, ai.Nil{})
		}
		st.Ghost["abs failed"] = ai.Tag{S: "yes"}
		return two(ai.Lit(""), c.err(st, "error of Abs", nil))
	case "path/filepath.IsAbs":
		return ai.Bool(st.DecidePrefix(st.Resolve(call.Args[0]).(ai.Str), "/")), true
	case "os.Stat", "os.Lstat":
		if name == "os.Lstat" {
			c.fail(st, "C20", "lstat", "os.Lstat does not follow symbolic links, so that what it says is not what is opened")
		}
		p := c.canonOf(st, call.Args[0])
		switch s := c.state(st, p); s {
		case fsFile, fsDir:
			// There is nothing at the empty path.
			if !st.AssumeStrEqual(st.Resolve(call.Args[0]).(ai.Str), ai.Lit(""), false) {
				st.Infeasible()
			}
			i := st.NewSym(ai.SymInfo{T: call.Common.Signature().Results().At(0).Type(), Nil: ai.No, Label: "file info", Def: &ai.Term{Op: "info", Args: p.key()}})
			return two(ai.SymV{S: i}, ai.Nil{})
		default:
			return two(ai.Nil{}, c.err(st, "error of Stat", &ai.Term{Op: "errof", Args: p.key()}))
		}
	case "os.ReadFile", "io/ioutil.ReadFile":
		p := c.canonOf(st, call.Args[0])
		if c.state(st, p) == fsFile && st.DecideEqual(intFact(st, "read", 2, p.key()), ai.K(0)) {
			return two(c.str(st, "content", p.key()...), ai.Nil{})
		}
		return two(ai.Nil{}, c.err(st, "error of ReadFile", &ai.Term{Op: "errof", Args: p.key()}))
	case "os.IsNotExist", "errors.Is":
		v := st.Resolve(call.Args[0])
		if st.DecideNil(v) {
			return ai.Bool(false), true
		}
		notExist := name == "os.IsNotExist"
		if !notExist {
			if ld, ok := call.Common.Args[1].(*ssa.UnOp); ok {
				if g, ok := ld.X.(*ssa.Global); ok && g.Name() == "ErrNotExist" {
					notExist = true
				}
			}
		}
		for {
			s, ok := v.(ai.SymV)
			if !ok {
				break
			}
			d := st.Info(s.S).Def
			if d != nil && d.Op == "wrap" && name == "errors.Is" {
				v = st.Resolve(d.Args[0])
				continue
			}
			if d != nil && d.Op == "errof" && notExist {
				return ai.Bool(st.DecideEqual(intFact(st, "fs", 4, d.Args), ai.K(fsMissing))), true
			}
			break
		}
		return ai.Bool(st.DecideTop()), true
	case "encoding/json.Unmarshal":
		return c.unmarshal(st, call)
	case "github.com/samsarahq/go/oops.Wrapf":
		if st.DecideNil(call.Args[0]) {
			return ai.Nil{}, true
		}
		return c.err(st, "wrapped error", &ai.Term{Op: "wrap", Args: []ai.Value{st.Resolve(call.Args[0])}}), true
	case "github.com/samsarahq/go/oops.Errorf", "fmt.Errorf", "errors.New":
		return c.err(st, "error", nil), true
	}
	if call.Fn != nil && inRepo(call.Fn) && c.sccs[call.Fn] {
		// Recursion along directories.
		for i, a := range call.Args {
			if s, ok := st.Resolve(a).(ai.Str); ok {
				if n, ok := c.step(st, s); ok {
					call.Args[i] = n
				}
			}
		}
	}
	return nil, false
}

func (c *resolverClient) infoCall(st *ai.State, method string, d *ai.Term) (ai.Value, bool) {
	f := intFact(st, "fs", 4, d.Args)
	switch method {
	case "IsDir":
		return ai.Bool(st.DecideEqual(f, ai.K(fsDir))), true
	case "IsRegular":
		if st.DecideEqual(f, ai.K(fsDir)) {
			return ai.Bool(false), true
		}
		return ai.Bool(st.DecideTop()), true
	case "Mode":
		return ai.Top{}, true
	case "Name":
		return ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "name"})), true
	case "Size":
		return ai.Top{}, true
	}
	return nil, false
}

// unmarshal models json.Unmarshal of package.json.
func (c *resolverClient) unmarshal(st *ai.State, call *ai.Call) (ai.Value, bool) {
	iv, ok := st.Resolve(call.Args[1]).(ai.Iface)
	src, ok2 := st.Resolve(call.Args[0]).(ai.Str)
	if !ok || !ok2 || src.Single() == 0 {
		return nil, false
	}
	d := st.Info(src.Single()).Def
	pt, ok := iv.T.(*types.Pointer)
	if d == nil || d.Op != "content" || !ok {
		return nil, false
	}
	str, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	f := intFact(st, "json", 3, d.Args)
	p := st.Deref(iv.V, nil)
	if st.DecideEqual(f, ai.K(0)) {
		return c.err(st, "error of Unmarshal", nil), true
	}
	empty := st.DecideEqual(f, ai.K(1))
	for i := 0; i < str.NumFields(); i++ {
		q := ai.Ptr{Obj: p.Obj, Path: append(append([]ai.Sel(nil), p.Path...), ai.Sel{Field: i})}
		if strings.Contains(str.Tag(i), `json:"style"`) || str.Tag(i) == "" && str.Field(i).Name() == "Style" {
			if empty {
				st.StorePtr(q, ai.Lit(""))
				continue
			}
			s := st.NewDef(stringType, "style", d.Args...)
			st.AssumeStrEqual(ai.SymStr(s), ai.Lit(""), false)
			st.StorePtr(q, ai.SymStr(s))
			continue
		}
		st.StorePtr(q, st.Unknown(str.Field(i).Type(), str.Field(i).Name()))
	}
	return ai.Nil{}, true
}

// ---- directories

func (c *resolverClient) spec(st *ai.State) ai.Str { return st.Ghost["spec"].(ai.Str) }

func (c *resolverClient) cur(st *ai.State) ai.Str {
	if s, ok := st.Ghost["cur"].(ai.Str); ok {
		return s
	}
	return c.str(st, "abs", st.Ghost["from"])
}

// step handles a directory that becomes its parent.
func (c *resolverClient) step(st *ai.State, v ai.Str) (ai.Str, bool) {
	s := v.Single()
	if s == 0 || st.Info(s).Def == nil || st.Info(s).Def.Op != "dir" {
		return v, false
	}
	old := st.Info(s).Def.Args[0].(ai.Str)
	c.steps++
	if st.Ghost["ended"] != nil || st.StrEqual(v, old) == ai.Yes {
		c.fail(st, "C21", "no-end", "the search goes on to the parent of a directory without a test that there is one, so that it never ends at the root")
	}
	if !st.SameValue(st.ResStr(old), st.ResStr(c.cur(st))) {
		c.fail(st, "C21", "start", "the search through the parent directories does not start at the absolute path of the starting directory, or leaves one out: %s instead of %s", st.Describe(old), st.Describe(c.cur(st)))
	}
	if out := c.resolve(st, c.nodeModules(st)); out.ok && !out.either {
		c.fail(st, "C22", "skipped-directory", "the search leaves a directory although its node_modules has a match")
		st.Infeasible()
	} else if out.unknown {
		c.fail(st, "C21", "not-visited", "the search leaves a directory without looking into its node_modules")
	}
	if st.StrEqual(old, ai.Lit("/")) != ai.No && st.DecideStrEqual(v, old) {
		// Whether there is a parent has to be tested now.
		st.Ghost["ended"] = ai.Tag{S: "yes"}
		return v, true
	}
	c.drop(st, c.nodeModules(st))
	n := ai.SymStr(st.NewSym(ai.SymInfo{T: stringType, Label: "parent directory"}))
	st.AssumeStrEqual(n, old, false)
	st.AssumeStrEqual(n, ai.Lit(""), false)
	st.Ghost["cur"] = n
	st.Progress()
	return n, true
}

// drop forgets what is known about a path and those below it.
func (c *resolverClient) drop(st *ai.State, p fsPath) {
	p.suffix = ""
	key := p.key()
	key = key[:len(key)-1]
	st.DropDefs(func(d *ai.Term) bool {
		switch d.Op {
		case "fs", "read", "json":
			return len(d.Args) >= len(key) && st.SameValue(ai.StructV{F: d.Args[:len(key)]}, ai.StructV{F: key})
		}
		return false
	})
}

func (c *resolverClient) nodeModules(st *ai.State) fsPath {
	p := c.canon(st, c.cur(st))
	p = p.join(lits("node_modules")...)
	q := c.canon(st, c.spec(st))
	p = p.join(q.elems...)
	p.suffix = q.suffix
	return p
}

func (c *resolverClient) LoopBack(st *ai.State, head *ssa.BasicBlock) {
	for slot, v := range st.Phis(head) {
		s, ok := st.Resolve(v).(ai.Str)
		if !ok {
			continue
		}
		if n, ok := c.step(st, s); ok {
			st.SetPhi(head, slot, n)
			return
		}
	}
	if !st.Counted(head) {
		c.fail(st, "C21", "loop:"+st.Fn.Name(), "a loop that neither counts nor moves to a parent directory")
	}
}

func (c *resolverClient) Exit(st *ai.State) {
	if cur, ok := st.Ghost["cur"].(ai.Str); ok || st.Sum != st.M.Top {
		if !ok {
			cur = c.cur(st)
		}
		d := c.str(st, "dir", cur)
		if st.StrEqual(d, cur) == ai.Yes || st.StrEqual(cur, ai.Lit("/")) == ai.Yes {
			st.Ghost["at root"] = ai.Tag{S: "yes"}
		}
	}
	if st.Sum != st.M.Top {
		return
	}
	c.exits++
	if v := st.Panic(); v != nil {
		msg, ok := ai.RuntimePanic(v)
		if !ok {
			msg = "it panics"
		}
		c.fail(st, "C20", "panics", "resolving fails: %s", msg)
	}
	t := st.Result().(ai.TupleV)
	path, ok := st.Resolve(t.V[0]).(ai.Str)
	if !ok {
		st.Undecided("result of Resolve")
	}
	isNil := st.DecideNil(t.V[1])
	if !isNil {
		if !st.DecideStrEqual(path, ai.Lit("")) {
			c.fail(st, "C20", "path-and-error", "both a path and an error are returned: %s", st.Describe(path))
		}
	}
	p := c.canon(st, path)
	if isNil {
		c.oks++
		was := st.Describe(path)
		if st.DecideStrEqual(path, ai.Lit("")) {
			c.fail(st, "C20", "empty-success", "an empty path is returned without an error: %s", was)
		}
		f := intFact(st, "fs", 4, p.key())
		if v, ok := st.SetOfInt(f).Single(); !ok || v != fsFile {
			what := "nothing has looked at it"
			if ok {
				what = []string{"", "it is a directory", "it does not exist", "it cannot be examined"}[v]
			} else if v := st.SetOfInt(f); v.Count(9) < 4 {
				what = "it may be a directory or missing"
			}
			c.fail(st, "C20", "not-a-file", "%s is returned without an error although %s", st.Describe(path), what)
		}
	}
	if c.prop != "C20" {
		c.order(st, isNil, p)
	}
	st.Infeasible() // nothing more to follow
}

// outcome is what looking a path up gives.
type outcome struct {
	ok      bool
	either  bool // the documentation leaves open whether it is found
	unknown bool // nothing has looked at the path
	path    fsPath
}

// resolve is the specification of the look-up of one path.
func (c *resolverClient) resolve(st *ai.State, p fsPath) outcome {
	f := intFact(st, "fs", 4, p.key())
	if st.SetOfInt(f).Count(9) == 4 {
		return outcome{unknown: true}
	}
	file := func(q fsPath) outcome { return outcome{ok: c.state(st, q) == fsFile, path: q} }
	switch c.state(st, p) {
	case fsFile:
		return outcome{ok: true, path: p}
	case fsMissing:
		q := p
		q.suffix += ".css"
		return file(q)
	case fsDir:
		pkg := p.join(lits("package.json")...)
		index := p.join(lits("index.css")...)
		switch c.state(st, pkg) {
		case fsMissing:
			return file(index)
		case fsFile:
			if st.DecideEqual(intFact(st, "read", 2, pkg.key()), ai.K(0)) {
				if !st.DecideEqual(intFact(st, "json", 3, pkg.key()), ai.K(2)) {
					return outcome{}
				}
				style := append(append([]ai.Value{ai.Tag{S: "style("}}, pkg.key()...), ai.Tag{S: ")"})
				return file(p.join(style))
			}
		}
		o := file(index)
		o.either = true
		return o
	}
	return outcome{}
}

func samePath(st *ai.State, a, b fsPath) bool {
	return st.SameValue(ai.StructV{F: a.key()}, ai.StructV{F: b.key()})
}

// order checks the result against the documented order.
func (c *resolverClient) order(st *ai.State, isNil bool, p fsPath) {
	spec := c.spec(st)
	var cands []fsPath
	var names []string
	add := func(name string, base ai.Str, mid string) {
		b := c.canon(st, base)
		if mid != "" {
			b = b.join(lits(mid)...)
		}
		q := c.canon(st, spec)
		b = b.join(q.elems...)
		b.suffix = q.suffix
		cands = append(cands, b)
		names = append(names, name)
	}
	rel := st.DecidePrefix(spec, "../") || st.DecidePrefix(spec, "./") || st.DecidePrefix(spec, "/")
	if rel {
		add("the starting directory", st.Ghost["from"].(ai.Str), "")
	} else {
		if base, ok := st.Ghost["base"].(ai.Str); ok && !st.DecideStrEqual(base, ai.Lit("")) {
			add("the base URL", base, "")
		}
		if st.Ghost["abs failed"] == nil {
			add("node_modules", c.cur(st), "node_modules")
		}
	}
	for i, q := range cands {
		o := c.resolve(st, q)
		if o.unknown {
			prop := "C22"
			if names[i] == "node_modules" {
				prop = c.prop // both
			}
			c.fail(st, prop, "not-tried:"+names[i], "the result is returned without trying %s", names[i])
		}
		if isNil && o.ok && samePath(st, o.path, p) {
			return
		}
		if o.either {
			if o.ok && !isNil {
				return
			}
			continue
		}
		if o.ok {
			if isNil {
				c.fail(st, "C22", "order:"+names[i], "another path is returned although there is a match in %s, which comes first", names[i])
			}
			c.fail(st, "C22", "not-found:"+names[i], "an error is returned although there is a match in %s", names[i])
		}
	}
	if isNil {
		c.fail(st, "C22", "other-path", "a path is returned that is not among the documented candidates: %s", describePath(st, p))
	}
	if !rel && st.Ghost["abs failed"] == nil && st.Ghost["at root"] == nil {
		c.fail(st, c.prop, "stops-early", "the search ends before it has been at the root")
	}
}

func describePath(st *ai.State, p fsPath) string {
	var b strings.Builder
	for _, v := range p.key() {
		if t, ok := v.(ai.Tag); ok {
			b.WriteString(strings.TrimPrefix(t.S, "+"))
			continue
		}
		b.WriteString(st.Describe(v))
	}
	return b.String()
}

func checkResolver(p *Program, r *Report, prop string) {
	switch prop {
	case "C20":
		r.Rule = "on every path through Resolve, a path that is returned without an error is one that Stat has found to be a file; with an error the path is empty; nothing panics"
	case "C21":
		r.Rule = "the search through node_modules starts at the absolute path of the starting directory, looks into each directory before it goes on to the parent, tests that there is a parent, and ends at the root; every other loop counts"
	case "C22":
		r.Rule = "on every path through Resolve, the result is that of the specification of the order of candidates, evaluated over what the path has found out about the file system"
	}
	r.Explanation = "Abstract interpretation of NodeResolver.Resolve and all functions it calls, in SSA form, with unknown spec, starting directory, base URL and file system, to a fixpoint over all paths. What a path finds out about a file (file, directory, missing, error; readable; JSON with a style or without) is kept as a fact about its canonical path."
	r.Assumptions = []string{"the file system does not change while one import is resolved", "path/filepath functions do what their documentation says"}
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return
	}
	named := p.Named("resolver", "NodeResolver")
	if named == nil {
		r.Violation("anchor", "resolver.NodeResolver is gone")
		return
	}
	pt := types.NewPointer(named)
	fn := p.Prog.LookupMethod(pt, named.Obj().Pkg(), "Resolve")
	str, ok := named.Underlying().(*types.Struct)
	if fn == nil || !ok || len(fn.Params) != 3 {
		r.Violation("anchor", "NodeResolver.Resolve is gone")
		return
	}
	c := &resolverClient{astClient: astClient{m}, prop: prop, sccs: recursiveFuncs(p)}
	mach := ai.NewMachine(p.Prog, c)
	mach.InRepo = inRepo
	mach.PosOf = p.Pos
	mach.Debug = verbose
	mach.Limit = 3000
	st := mach.NewState()
	recv := ai.StructV{}
	for i := 0; i < str.NumFields(); i++ {
		v := st.Unknown(str.Field(i).Type(), str.Field(i).Name())
		if str.Field(i).Name() == "BaseURL" {
			st.Ghost["base"] = v
		}
		recv.F = append(recv.F, v)
	}
	if st.Ghost["base"] == nil {
		r.Violation("anchor", "NodeResolver.BaseURL is gone")
	}
	var self ai.Value = ai.Ptr{Obj: st.NewObj(&ai.Obj{Kind: ai.Cell, T: named, V: recv})}
	if _, ptr := fn.Params[0].Type().(*types.Pointer); !ptr {
		self = recv
	}
	spec, from := st.Unknown(stringType, "spec"), st.Unknown(stringType, "fromDir")
	st.Ghost["spec"], st.Ghost["from"] = spec, from
	mach.Start(fn, st, []ai.Value{self, spec, from}, nil)
	for _, f := range mach.Findings {
		r.Violation(f.Key, "%s", f.Msg)
	}
	for _, t := range mach.Trouble {
		r.Violation("undecided:"+t, "%s", t)
	}
	r.Require("results of Resolve", c.exits, 4)
	r.Require("successful results", c.oks, 3)
	if prop == "C21" {
		r.Require("steps to a parent directory", c.steps, 1)
	}
	r.Counts["abstract states"] = len(mach.Nodes)
	r.Counts["steps"] = mach.Steps
}
