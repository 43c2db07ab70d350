package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/ssa"
)

// C07: the accesses of the tasks of a compilation to memory that they share, with the locks
// that are held, and the writes to package variables of everything that they call.

func init() { register("C07", checkRaces) }

// Flags of objects.
const (
	fCaptured uint32 = 1 << iota // handed to a task
	fShared                      // handed to more than one
	fTaskMade                    // by the task that handed it to others
	fPublic                      // put into a table of the compilation
	fMine                        // made by the task that runs, and handed to another
)

type access struct {
	key, epoch string
	thread     string
	multi      bool // several tasks may do this
	write      bool
	locks      string // names; those with a star are held exclusively
	where      string
}

type raceClient struct {
	*apiClient
	accesses map[access]bool
}

// reach calls f for the objects that can be reached from a value.
func reach(st *ai.State, v ai.Value, seen map[ai.ObjID]bool, f func(id ai.ObjID)) {
	obj := func(id ai.ObjID) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o := st.Object(id)
		if o == nil {
			return
		}
		f(id)
		o = st.Object(id)
		reach(st, o.V, seen, f)
		for _, s := range o.Segs {
			reach(st, s.Elem, seen, f)
		}
		for _, e := range o.Elems {
			reach(st, e.V, seen, f)
		}
	}
	if v == nil {
		return
	}
	switch v := st.Resolve(v).(type) {
	case ai.Ptr:
		obj(v.Obj)
	case ai.SliceV:
		obj(v.Obj)
	case ai.Iface:
		reach(st, v.V, seen, f)
	case ai.StructV:
		for _, x := range v.F {
			reach(st, x, seen, f)
		}
	case ai.TupleV:
		for _, x := range v.V {
			reach(st, x, seen, f)
		}
	case ai.FuncV:
		for _, x := range v.B {
			reach(st, x, seen, f)
		}
	}
}

func (c *raceClient) spawned(st *ai.State, f ai.Value, args []ai.Value) []ai.Value {
	seen := map[ai.ObjID]bool{}
	var mine []ai.Value
	task := st.Ghost["task"] != nil
	mark := func(id ai.ObjID) {
		flags := st.Object(id).Flags
		if c.mine(st, id) && task {
			flags |= fTaskMade
			mine = append(mine, ai.Ptr{Obj: id})
		}
		if flags&fCaptured != 0 {
			flags |= fShared
		}
		// For the task that begins, it is the object of another.
		flags = (flags | fCaptured) &^ fMine
		if flags != st.Object(id).Flags {
			st.UpdateObj(id, func(o *ai.Obj) { o.Flags = flags })
		}
	}
	reach(st, f, seen, mark)
	for _, a := range args {
		reach(st, a, seen, mark)
	}
	return mine
}

func (c *raceClient) joined(st *ai.State, mine []ai.Value) {
	for _, v := range mine {
		st.UpdateObj(v.(ai.Ptr).Obj, func(o *ai.Obj) { o.Flags |= fMine })
	}
}

// mine says whether the task that runs made an object.
func (c *raceClient) mine(st *ai.State, id ai.ObjID) bool {
	o := st.Object(id)
	return o.Flags&fCaptured == 0 && !o.Input || o.Flags&fMine != 0
}

func (c *raceClient) concurrent(st *ai.State) bool {
	return st.Ghost["task"] != nil || len(ghostSet(st, "pending")) > 0
}

// record notes an access to an object.
func (c *raceClient) record(st *ai.State, id ai.ObjID, key string, write bool) {
	if !c.concurrent(st) {
		return
	}
	o := st.Object(id)
	task := st.Ghost["task"] != nil
	multi := o.Flags&fShared != 0
	switch {
	case o.Input && o.Flags&fCaptured == 0:
		// Found in a table.
		if !task {
			return
		}
		multi = true
	case o.Flags&(fCaptured|fPublic) == 0:
		return
	case task && o.Flags&fCaptured != 0 && c.mine(st, id):
		if len(ghostSet(st, "pending")) == 0 && o.Flags&fPublic == 0 {
			return
		}
		multi = true
	}
	c.note(st, key, write, multi, o.Flags&fTaskMade != 0)
}

func (c *raceClient) note(st *ai.State, key string, write, multi, taskMade bool) {
	a := access{key: key, epoch: fmt.Sprint(st.Ghost["=epoch"]), thread: "task", multi: multi, write: write, where: st.Where()}
	if st.Ghost["task"] == nil {
		a.thread = "main"
	}
	var locks []string
	for _, l := range ghostSet(st, "locks") {
		p := l.(ai.Ptr)
		o := st.Object(p.Obj)
		private := o.Flags&fTaskMade != 0 || a.thread == "task" && !o.Input && o.Flags&fCaptured == 0
		if private && !taskMade {
			continue // every task has its own
		}
		name := "a lock" // a variable
		if _, _, ok := lockParent(st, p); ok {
			name = lockName(st, p)
		}
		if !ghostHas(st, "rlocks", l) {
			name += "*"
		}
		locks = append(locks, name)
	}
	sort.Strings(locks)
	a.locks = strings.Join(locks, ",")
	c.accesses[a] = true
}

func varName(st *ai.State, v ssa.Value) string {
	fn := v.Parent()
	for fn != nil && fn.Parent() != nil {
		fn = fn.Parent()
	}
	switch v := v.(type) {
	case *ssa.FreeVar:
		return fmt.Sprintf("variable %s of %s", v.Name(), fn)
	case *ssa.Alloc:
		return fmt.Sprintf("variable %s of %s", v.Comment, fn)
	}
	return "a variable of type " + v.Type().String()
}

func (c *raceClient) touch(st *ai.State, p ai.Ptr, write bool) {
	var addr ssa.Value
	switch in := st.Instr().(type) {
	case *ssa.UnOp:
		addr = in.X
	case *ssa.Store:
		addr = in.Addr
	default:
		return
	}
	o := st.Object(p.Obj)
	if o == nil || o.Kind != ai.Cell || o.T == nil {
		return
	}
	str, ok := o.T.Underlying().(*types.Struct)
	switch {
	case ok && len(p.Path) == 0:
		for i := 0; i < str.NumFields(); i++ {
			c.record(st, p.Obj, ai.TypeName(o.T)+"."+str.Field(i).Name(), write)
		}
	case ok && !p.Path[0].Elem:
		c.record(st, p.Obj, ai.TypeName(o.T)+"."+str.Field(p.Path[0].Field).Name(), write)
	case !ok && len(p.Path) == 0:
		c.record(st, p.Obj, varName(st, addr), write)
	}
}

// table notes an access to a map.
func (c *raceClient) table(st *ai.State, m ai.Value, write bool) {
	p, ok := st.Resolve(m).(ai.Ptr)
	if !ok {
		return
	}
	key := "a table of type " + st.Object(p.Obj).T.String()
	for i := 1; i < st.Objs(); i++ {
		o := st.Object(ai.ObjID(i))
		if o == nil || o.Kind != ai.Cell || o.T == nil {
			continue
		}
		str, ok := o.T.Underlying().(*types.Struct)
		sv, ok2 := o.V.(ai.StructV)
		if !ok || !ok2 {
			continue
		}
		for j, f := range sv.F {
			if q, ok := st.Resolve(f).(ai.Ptr); ok && q.Obj == p.Obj && len(q.Path) == 0 {
				c.record(st, p.Obj, "the table "+ai.TypeName(o.T)+"."+str.Field(j).Name(), write)
				return
			}
		}
	}
	c.record(st, p.Obj, key, write)
}

func (c *raceClient) Load(st *ai.State, p ai.Ptr, t types.Type) (ai.Value, bool) {
	c.touch(st, p, false)
	return c.apiClient.Load(st, p, t)
}

func (c *raceClient) Store(st *ai.State, p ai.Ptr, v ai.Value) {
	c.touch(st, p, true)
	c.apiClient.Store(st, p, v)
}

func (c *raceClient) MapLookup(st *ai.State, m, key ai.Value, t *types.Map) (ai.Value, ai.Value, bool) {
	c.table(st, m, false)
	return c.apiClient.MapLookup(st, m, key, t)
}

func (c *raceClient) MapLen(st *ai.State, m ai.Value) (ai.Value, bool) {
	c.table(st, m, false)
	return c.apiClient.MapLen(st, m)
}

func (c *raceClient) MapNext(st *ai.State, m ai.Value, t *types.Map) (k, v, done ai.Value, handled bool) {
	c.table(st, m, false)
	return c.apiClient.MapNext(st, m, t)
}

func (c *raceClient) MapUpdate(st *ai.State, m, key, v ai.Value) bool {
	c.table(st, m, true)
	if p, ok := st.Resolve(m).(ai.Ptr); ok && v != nil && st.Object(p.Obj).Flags&fCaptured != 0 {
		reach(st, v, map[ai.ObjID]bool{}, func(id ai.ObjID) {
			if st.Object(id).Flags&fPublic == 0 {
				st.UpdateObj(id, func(o *ai.Obj) { o.Flags |= fPublic })
			}
		})
	}
	return c.apiClient.MapUpdate(st, m, key, v)
}

// drop forgets what only other properties need.
func (c *raceClient) drop(st *ai.State) {
	for _, k := range []string{"duties", "open", "files", "claimint"} {
		delete(st.Ghost, k)
	}
}

func (c *raceClient) Exit(st *ai.State) {
	c.drop(st)
	c.apiClient.Exit(st)
}

func (c *raceClient) fields(st *ai.State, t *types.Named, write bool, only string) {
	str, ok := t.Underlying().(*types.Struct)
	if !ok || !c.concurrent(st) {
		return
	}
	for i := 0; i < str.NumFields(); i++ {
		if n := str.Field(i).Name(); only == "" || n == only {
			c.note(st, ai.TypeName(t)+"."+n, write, true, false)
		}
	}
}

func (c *raceClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	switch {
	case call.Fn == nil:
	case c.is(call.Fn, "internal/parser", "Parse"):
		// It fills in the lines of the source.
		if p, ok := st.Resolve(call.Args[0]).(ai.Ptr); ok {
			c.record(st, p.Obj, ai.TypeName(c.source)+".Lines", true)
			c.record(st, p.Obj, ai.TypeName(c.source)+".Content", false)
		} else {
			c.fields(st, c.source, true, "Lines")
		}
	case c.is(call.Fn, "internal/transformer", "Transform"), c.is(call.Fn, "internal/printer", "Print"):
		c.fields(st, c.source, false, "")
		c.fields(st, c.sheet, false, "")
		for _, a := range call.Args[1:] {
			if o, ok := st.Resolve(a).(ai.StructV); ok {
				for _, f := range o.F {
					if p, ok := st.Resolve(f).(ai.Ptr); ok && st.Object(p.Obj).Kind == ai.Map {
						c.table(st, p, false)
					}
				}
			}
		}
	}
	v, ok := c.apiClient.Call(st, call)
	c.drop(st)
	switch call.Name {
	case "(*sync.RWMutex).RLock":
		ghostAdd(st, "rlocks", st.Resolve(call.Args[0]))
	case "(*sync.RWMutex).RUnlock", "(*sync.RWMutex).Unlock":
		ghostDel(st, "rlocks", st.Resolve(call.Args[0]))
	case "(*golang.org/x/sync/errgroup.Group).Wait", "(*sync.WaitGroup).Wait":
		if st.Ghost["task"] == nil && len(ghostSet(st, "pending")) == 0 {
			n, _ := st.Ghost["=epoch"].(ai.Int)
			if n.Off < 6 {
				st.Ghost["=epoch"] = ai.K(n.Off + 1)
			}
		}
	}
	return v, ok
}

// protected says whether a lock orders two accesses.
func protected(a, b access) bool {
	has := func(x access, name string) bool {
		for _, l := range strings.Split(x.locks, ",") {
			if l == name+"*" || !x.write && l == name {
				return true
			}
		}
		return false
	}
	for _, l := range strings.Split(a.locks, ",") {
		name := strings.TrimSuffix(l, "*")
		if name != "" && has(a, name) && has(b, name) {
			return true
		}
	}
	return false
}

func checkRaces(p *Program, r *Report) {
	r.Rule = "two accesses to the same variable, field or table, at least one of them a write, are made by the same task, are ordered by the start or the end of a task, or have a lock in common (which the writer holds exclusively); nothing that tasks call writes to a package variable, to a resolver, or to a source that is in the tables, without a lock that all accesses have"
	r.Explanation = "Abstract interpretation of Compile and all functions and closures of the package with unknown options and symbolic files, to a fixpoint over all paths and over recursion, that notes every access to memory that a task was handed, or that is in a table of the compilation, with the locks that are held; and a dataflow analysis over everything that can be called from Compile, of the writes to package variables."
	r.Assumptions = []string{"elements of a list that tasks share are not compared by their index", "the transformer and the printer do not change trees that they are given (decided by C12)", "a lock that is a field is the same one for all tasks if its object was made before them"}
	c := &raceClient{apiClient: &apiClient{prop: "C07", counts: map[string]int{}}, accesses: map[access]bool{}}
	c.onSpawn, c.onJoin = c.spawned, c.joined
	mach := runAPI(p, r, c.apiClient, c)
	if mach == nil {
		return
	}
	for _, f := range mach.Findings {
		r.Violation(f.Key, "%s", f.Msg)
	}
	for _, t := range mach.Trouble {
		r.Violation("undecided:"+t, "%s", t)
	}
	var all []access
	for a := range c.accesses {
		all = append(all, a)
	}
	sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
	keys := map[string]bool{}
	pairs := 0
	for i, a := range all {
		keys[a.key] = true
		if verbose {
			fmt.Printf("access %+v\n", a)
		}
		for _, b := range all[i:] {
			if a.key != b.key || a.epoch != b.epoch || !a.write && !b.write {
				continue
			}
			if a.thread == "main" && b.thread == "main" || a.thread == b.thread && !a.multi && !b.multi {
				continue
			}
			pairs++
			if protected(a, b) {
				continue
			}
			what := func(x access) string {
				s := "read"
				if x.write {
					s = "written"
				}
				if x.locks == "" {
					return fmt.Sprintf("%s without a lock at %s", s, x.where)
				}
				return fmt.Sprintf("%s with %s at %s", s, x.locks, x.where)
			}
			r.Violation("race:"+a.key, "%s may be used by two tasks at once: it is %s and %s", a.key, what(a), what(b))
		}
	}
	r.Counts["shared variables, fields and tables"] = len(keys)
	r.Counts["accesses while tasks run"] = len(all)
	r.Counts["pairs of accesses with a write"] = pairs
	r.Counts["abstract states"] = len(mach.Nodes)
	r.Counts["steps"] = mach.Steps
	r.Require("shared variables, fields and tables", len(keys), 8)
	r.Require("pairs of accesses with a write", pairs, 5)
	staticRaces(p, r)
}

const fieldMark = ", field "

// staticRaces looks at all writes to package variables, resolvers and sources.
func staticRaces(p *Program, r *Report) {
	cg := cha.CallGraph(p.Prog)
	closure := func(roots ...*ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		work := roots
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			if f == nil || seen[f] || !inRepo(f) || f.Name() == "init" && f.Signature.Recv() == nil {
				continue
			}
			seen[f] = true
			work = append(work, f.AnonFuncs...)
			if n := cg.Nodes[f]; n != nil {
				for _, e := range n.Out {
					work = append(work, e.Callee.Func)
				}
			}
		}
		return seen
	}
	fns := closure(p.Pkgs[""].Func("Compile"))
	var after []*ssa.Function
	for _, x := range [][2]string{{"internal/transformer", "Transform"}, {"internal/printer", "Print"}} {
		pkg := p.Pkgs[x[0]]
		if pkg == nil || pkg.Func(x[1]) == nil {
			r.Violation("anchor", "%s.%s is gone", x[0], x[1])
			return
		}
		after = append(after, pkg.Func(x[1]))
	}
	late := closure(after...)
	r.Counts["functions that tasks may call"] = len(fns)
	r.Require("functions that tasks may call", len(fns), 60)

	// What points into a package variable or a resolver.
	root := map[ssa.Value]string{}
	pointer := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			return true
		}
		return false
	}
	syncType := func(t types.Type) bool {
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
	}
	var list []*ssa.Function
	for f := range fns {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool {
		return p.Pos(list[i].Pos())+list[i].String() < p.Pos(list[j].Pos())+list[j].String()
	})
	rootOf := func(v ssa.Value) string {
		if g, ok := v.(*ssa.Global); ok && g.Pkg != nil && pkgInRepo(g.Pkg.Pkg) && !syncType(g.Type()) {
			return "the package variable " + g.String()
		}
		return root[v]
	}
	for _, f := range list {
		if recv := f.Signature.Recv(); recv != nil && f.Name() == "Resolve" && len(f.Params) > 0 && pointer(f.Params[0].Type()) {
			root[f.Params[0]] = "the resolver " + ai.TypeName(recv.Type())
		}
	}
	for again := true; again; {
		again = false
		set := func(v ssa.Value, s string) {
			if s != "" && root[v] == "" && !syncType(v.Type()) {
				root[v] = s
				again = true
			}
		}
		for _, f := range list {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						s := rootOf(x.X)
						if ptr, ok := x.X.Type().Underlying().(*types.Pointer); ok && s != "" && !strings.Contains(s, fieldMark) {
							if str, ok := ptr.Elem().Underlying().(*types.Struct); ok {
								s += fieldMark + str.Field(x.Field).Name()
							}
						}
						set(x, s)
					case *ssa.IndexAddr:
						set(x, rootOf(x.X))
					case *ssa.Slice:
						set(x, rootOf(x.X))
					case *ssa.ChangeType:
						set(x, rootOf(x.X))
					case *ssa.MakeInterface:
						set(x, rootOf(x.X))
					case *ssa.TypeAssert:
						set(x, rootOf(x.X))
					case *ssa.UnOp:
						if pointer(x.Type()) {
							set(x, rootOf(x.X))
						}
					case *ssa.Lookup:
						if pointer(x.Type()) {
							set(x, rootOf(x.X))
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							set(x, rootOf(e))
						}
					case *ssa.MakeClosure:
						for i, e := range x.Bindings {
							set(x.Fn.(*ssa.Function).FreeVars[i], rootOf(e))
						}
					case ssa.CallInstruction:
						callee := x.Common().StaticCallee()
						if callee == nil || !inRepo(callee) {
							continue
						}
						for i, a := range x.Common().Args {
							if i < len(callee.Params) && pointer(a.Type()) {
								set(callee.Params[i], rootOf(a))
							}
						}
					}
				}
			}
		}
	}
	type use struct {
		root, where string
		write       bool
		locks       map[string]bool
	}
	var uses []use
	source := p.Named("internal/sources", "Source")
	held := allLocks(list, cg)
	for _, f := range list {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var to ssa.Value
				write := true
				switch x := in.(type) {
				case *ssa.Store:
					to = x.Addr
				case *ssa.MapUpdate:
					to = x.Map
				case *ssa.UnOp:
					if x.Op.String() == "*" {
						to, write = x.X, false
					}
				case *ssa.Lookup:
					to, write = x.X, false
				case *ssa.Range:
					to, write = x.X, false
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && len(x.Common().Args) > 0 {
						to = x.Common().Args[0]
						write = bi.Name() == "delete" || bi.Name() == "copy" || bi.Name() == "clear"
					}
				}
				if to == nil {
					continue
				}
				if s := rootOf(to); s != "" {
					uses = append(uses, use{s, p.Pos(in.Pos()) + " in " + f.String(), write, held[in]})
				}
				if fa, ok := to.(*ssa.FieldAddr); ok && write && late[f] {
					ptr, _ := fa.X.Type().Underlying().(*types.Pointer)
					if _, local := fa.X.(*ssa.Alloc); ptr != nil && source != nil && types.Identical(ptr.Elem(), source) && !local && len(held[in]) == 0 {
						r.Violation("source-write:"+f.String(), "%s: %s, which the transformer or the printer may call, writes to a source, which other tasks may be reading", p.Pos(in.Pos()), f)
					}
				}
			}
		}
	}
	writes := map[string]bool{}
	for _, u := range uses {
		if u.write {
			writes[u.root] = true
		}
	}
	overlap := func(a, b string) bool {
		return a == b || strings.HasPrefix(a, b+fieldMark) || strings.HasPrefix(b, a+fieldMark)
	}
	r.Counts["uses of package variables and resolvers"] = len(uses)
	r.Counts["package variables and resolvers that are written"] = len(writes)
	r.Require("uses of package variables and resolvers", len(uses), 5)
	for _, u := range uses {
		for _, w := range uses {
			if !w.write || !overlap(u.root, w.root) {
				continue
			}
			common := false
			for l, excl := range u.locks {
				if wexcl, ok := w.locks[l]; ok && wexcl && (excl || !u.write) {
					common = true
				}
			}
			if !common {
				r.Violation("global:"+u.root, "%s may be used by two tasks at once: it is written at %s, and used at %s without the same lock", u.root, w.where, u.where)
				break
			}
		}
	}
}

// lockTable is what is held at each instruction: true is exclusively. A call of Do of a
// sync.Once is a lock that is exclusive in the function that it is given, and shared after it.
type lockTable map[ssa.Instruction]map[string]bool

func lockPath(v ssa.Value) string {
	s := ""
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			s += fmt.Sprintf(".%d", x.Field)
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Global:
			return x.String() + s
		case *ssa.Parameter, *ssa.FreeVar:
			return strings.TrimLeft(x.Type().String(), "*") + s
		}
		return ""
	}
}

// allLocks are the locks that are held in the functions of a program, for all their callers.
func allLocks(fns []*ssa.Function, cg *callgraph.Graph) lockTable {
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	once := map[*ssa.Function]string{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().String() != "(*sync.Once).Do" {
					continue
				}
				switch g := c.Common().Args[1].(type) {
				case *ssa.MakeClosure:
					once[g.Fn.(*ssa.Function)] = lockPath(c.Common().Args[0])
				case *ssa.Function:
					once[g] = lockPath(c.Common().Args[0])
				}
			}
		}
	}
	out := lockTable{}
	// What is held at the entry; nil is not known yet.
	entry := map[*ssa.Function]map[string]bool{}
	for _, f := range fns {
		switch n := cg.Nodes[f]; {
		case once[f] != "":
			entry[f] = map[string]bool{once[f]: true}
		case n == nil || len(n.In) == 0 || ast.IsExported(f.Name()):
			entry[f] = map[string]bool{}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range fns {
			if e, ok := entry[f]; ok {
				heldLocks(f, e, out)
			}
		}
		for _, f := range fns {
			n := cg.Nodes[f]
			if n == nil || once[f] != "" || len(n.In) == 0 || ast.IsExported(f.Name()) {
				continue
			}
			var e map[string]bool
			for _, c := range n.In {
				caller := c.Caller.Func
				if !in[caller] {
					e = map[string]bool{}
					break
				}
				held, ok := out[c.Site]
				if !ok {
					continue
				}
				if e == nil {
					e = map[string]bool{}
					for k, v := range held {
						e[k] = v
					}
				}
				meet(e, held)
			}
			if e == nil {
				continue
			}
			old, ok := entry[f]
			if !ok {
				entry[f] = e
				again = true
			} else if meet(old, e) {
				again = true
			}
		}
	}
	return out
}

// meet keeps in a what is in b as well.
func meet(a, b map[string]bool) bool {
	changed := false
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			delete(a, k)
			changed = true
		} else if v && !w {
			a[k] = false
			changed = true
		}
	}
	return changed
}

// heldLocks finds what is held at each instruction of a function.
func heldLocks(f *ssa.Function, entry map[string]bool, out lockTable) {
	if len(f.Blocks) == 0 {
		return
	}
	same := func(m map[string]bool) map[string]bool {
		n := map[string]bool{}
		for k, v := range m {
			n[k] = v
		}
		return n
	}
	in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: same(entry)}
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			cur, ok := in[b]
			if !ok {
				continue
			}
			now := same(cur)
			for _, i := range b.Instrs {
				out[i] = same(now)
				c, ok := i.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || len(c.Common().Args) == 0 {
					continue
				}
				l := lockPath(c.Common().Args[0])
				if l == "" {
					continue
				}
				switch c.Common().StaticCallee().String() {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
					now[l] = true
				case "(*sync.RWMutex).RLock", "(*sync.Once).Do":
					now[l] = false
				case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
					delete(now, l)
				}
			}
			for _, s := range b.Succs {
				if old, ok := in[s]; !ok {
					in[s] = same(now)
					again = true
				} else if meet(old, now) {
					again = true
				}
			}
		}
	}
}
