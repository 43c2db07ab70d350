package main

import (
	"fmt"
	"go/types"
	"strings"

	"csscheck/ai"

	"golang.org/x/tools/go/ssa"
)

// C31: Walk visits every node exactly once, parents before children. Every kind of node is
// analysed with all fields unknown; what the recursive calls visit is an induction.

type walkClient struct {
	astClient
	r     *Report
	sccs  map[*ssa.Function]bool
	fn    *ssa.Function
	visit int // parameter
	arg   int
	name  string
	extra map[*ssa.Function]bool
}

func init() { register("C31", checkWalk) }

func (c *walkClient) fail(st *ai.State, k, format string, args ...interface{}) {
	st.M.Report(c.fn.Name()+":"+c.name+":"+k, "%s: %s\n    path: %s", st.Where(), fmt.Sprintf(format, args...), st.Path())
	st.Infeasible()
}

func (c *walkClient) ref(st *ai.State) emNodeRef { return emNodeRef{c.m, c.name, rootPtr(st)} }

func (c *walkClient) Call(st *ai.State, call *ai.Call) (ai.Value, bool) {
	if call.Name == "visit" {
		v := call.Args[len(call.Args)-1]
		if c.name == "" {
			if !st.DecideNil(v) {
				c.fail(st, "visit-other", "another node than the one that is walked is visited")
			}
			c.fail(st, "visit-nil", "nil is visited")
		}
		if !sameNode(st, v, st.Ghost["root"]) {
			c.fail(st, "visit-other", "another node than the one that is walked is visited: %s", st.Describe(v))
		}
		if st.Ghost["visited"] != nil {
			c.fail(st, "visited-twice", "a %s is visited twice", c.name)
		}
		st.Ghost["visited"] = ai.Tag{S: "yes"}
		// A visitor that returns something says: go on.
		sig := call.Common.Signature()
		switch sig.Results().Len() {
		case 0:
			return nil, true
		case 1:
			return st.Unknown(sig.Results().At(0).Type(), "result of the visitor"), true
		}
		st.Undecided("results of the visitor")
	}
	if call.Fn == nil || !inRepo(call.Fn) || !c.sccs[call.Fn] || c.name == "" {
		return nil, false
	}
	sig := call.Fn.Signature
	if len(call.Fn.Params) != len(c.fn.Params) || !types.Identical(sig.Params(), c.fn.Signature.Params()) {
		return nil, false
	}
	v := st.Resolve(call.Args[c.arg])
	if sameNode(st, v, st.Ghost["root"]) && call.Fn != c.fn {
		return nil, false
	}
	if f, ok := call.Args[c.visit].(ai.FuncV); !ok || f.Native != "visit" {
		c.fail(st, "other-visitor", "a part is walked with another visitor")
	}
	c.extra[call.Fn] = true
	c.child(st, v)
	return nil, true
}

func (c *walkClient) child(st *ai.State, v ai.Value) {
	if st.DecideNil(v) {
		return
	}
	if st.Ghost["visited"] == nil {
		c.fail(st, "child-first", "a part of a %s is walked before the %s is visited", c.name, c.name)
	}
	ref := c.ref(st)
	str := c.m.structOf(c.name)
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		g := "w." + f.Name()
		if c.m.isNodeType(f.Type()) {
			if sameNode(st, ref.get(st, f.Name()), v) {
				if st.Ghost[g] != nil {
					c.fail(st, "twice:"+f.Name(), "%s.%s is walked twice", c.name, f.Name())
				}
				st.Ghost[g] = ai.Tag{S: "done"}
				return
			}
			continue
		}
		if !c.isList(f.Type()) {
			continue
		}
		l, ok := ref.list(st, f.Name())
		if !ok {
			continue
		}
		n, ok := st.Ghost[g].(ai.Int)
		if !ok {
			n = ai.K(0)
		}
		if st.Less(n, ref.length(st, f.Name()), false) != ai.Yes {
			continue
		}
		if sameNode(st, st.ElemAt(l.Obj, n), v) {
			st.Ghost[g] = n.Add(1)
			return
		}
	}
	c.fail(st, "wrong-child", "what is walked is not the next part of the %s: %s", c.name, st.Describe(v))
}

func (c *walkClient) isList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && c.m.isNodeType(s.Elem())
}

func (c *walkClient) LoopHead(st *ai.State, head *ssa.BasicBlock) {
	st.ForgetElements(func(list ai.ObjID, idx ai.Int) bool {
		for k, v := range st.Ghost {
			n, ok := v.(ai.Int)
			if !ok || !strings.HasPrefix(k, "w.") {
				continue
			}
			n, x := st.ResInt(n), st.ResInt(idx)
			if n.Base == x.Base && (x.Off == n.Off || x.Off == n.Off-1) {
				return true
			}
		}
		return false
	})
}

func (c *walkClient) Store(st *ai.State, p ai.Ptr, v ai.Value) {
	if o := st.Object(p.Obj); o.Input && o.Kind == ai.Cell && o.T != nil && c.m.nodeName(types.NewPointer(o.T)) != "" {
		c.fail(st, "writes", "walking changes the tree")
	}
}

func (c *walkClient) Exit(st *ai.State) {
	if st.Sum != st.M.Top {
		return
	}
	if v := st.Panic(); v != nil {
		msg, ok := ai.RuntimePanic(v)
		if !ok {
			msg = "it panics"
		}
		c.fail(st, "panics", "walking fails: %s", msg)
		return
	}
	if c.name == "" {
		return
	}
	if st.Ghost["visited"] == nil {
		c.fail(st, "not-visited", "a %s is not visited", c.name)
	}
	ref := c.ref(st)
	str := c.m.structOf(c.name)
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		g := "w." + f.Name()
		switch {
		case c.m.isNodeType(f.Type()):
			if st.Ghost[g] == nil && !st.DecideNil(ref.get(st, f.Name())) {
				st.M.Report(c.fn.Name()+":"+c.name+":missing:"+f.Name(), "%s: %s.%s is not walked\n    path: %s", st.Where(), c.name, f.Name(), st.Path())
			}
		case c.isList(f.Type()):
			n, ok := st.Ghost[g].(ai.Int)
			if !ok {
				n = ai.K(0)
			}
			if !st.DecideEqual(n, ref.length(st, f.Name())) {
				st.M.Report(c.fn.Name()+":"+c.name+":missing:"+f.Name(), "%s: not all of %s.%s are walked\n    path: %s", st.Where(), c.name, f.Name(), st.Path())
			}
		}
	}
}

func checkWalk(p *Program, r *Report) {
	r.Rule = "for every kind of node that the library allocates, every path through Walk visits the node and then walks each node in its fields exactly once, with the same visitor"
	r.Explanation = "Abstract interpretation of ast.Walk in SSA form, once per kind of node with all fields unknown and once for nil, to a fixpoint over all paths; the fields that hold nodes are taken from the type declarations. Recursive calls are an induction over the tree."
	r.Assumptions = []string{"trees have the shape that the parser and the transforms build: only " + strings.Join(sortedSet(nilableFields), ", ") + " may be nil"}
	m, err := newASTModel(p)
	if err != nil {
		r.Violation("anchor", "%v", err)
		return
	}
	walk := p.Func("internal/ast", "Walk")
	if walk == nil {
		r.Violation("anchor", "ast.Walk is gone")
		return
	}
	c := &walkClient{astClient: astClient{m}, r: r, sccs: recursiveFuncs(p), extra: map[*ssa.Function]bool{}}
	c.arg, c.visit = -1, -1
	for i, q := range walk.Params {
		if m.isNodeType(q.Type()) {
			c.arg = i
		}
		if _, ok := q.Type().Underlying().(*types.Signature); ok {
			c.visit = i
		}
	}
	if c.arg < 0 || c.visit < 0 || len(walk.Params) != 2 {
		r.Violation("anchor", "ast.Walk does not take a node and a visitor")
		return
	}
	kinds, fields, states := 0, 0, 0
	done := map[*ssa.Function]bool{}
	c.extra[walk] = true
	for again := true; again; {
		again = false
		for fn := range c.extra {
			if done[fn] {
				continue
			}
			done[fn], again = true, true
			cands := append([]types.Type{nil}, m.candidates(walk.Params[c.arg].Type())...)
			for _, t := range cands {
				c.fn, c.name = fn, ""
				mach := ai.NewMachine(p.Prog, c)
				mach.InRepo = inRepo
				mach.PosOf = p.Pos
				mach.Debug = verbose
				st := mach.NewState()
				args := make([]ai.Value, 2)
				args[c.visit] = ai.FuncV{Native: "visit"}
				if t == nil {
					args[c.arg] = ai.Nil{}
				} else {
					c.name = m.nodeName(t)
					kinds++
					str := m.structOf(c.name)
					for i := 0; i < str.NumFields(); i++ {
						if m.isNodeType(str.Field(i).Type()) || c.isList(str.Field(i).Type()) {
							fields++
							r.Sample("%s.%s", c.name, str.Field(i).Name())
						}
					}
					root := ai.SymV{S: st.NewSym(ai.SymInfo{T: fn.Params[c.arg].Type(), Nil: ai.No, Label: c.name})}
					st.SetDyn(root.S, t)
					args[c.arg] = root
					st.Ghost["root"] = root
				}
				mach.Start(fn, st, args, nil)
				states += len(mach.Nodes)
				for _, f := range mach.Findings {
					r.Violation(f.Key, "%s", f.Msg)
				}
				for _, t := range mach.Trouble {
					r.Violation("undecided:"+t, "%s", t)
				}
				if len(mach.Top.Exits()) == 0 && len(mach.Findings) == 0 && len(mach.Trouble) == 0 {
					r.Violation(fn.Name()+":"+c.name+":never-ends", "walking a %s never ends", c.name)
				}
			}
		}
	}
	r.Require("kinds of nodes", kinds, 28)
	r.Require("fields with nodes", fields, 20)
	r.Counts["abstract states"] = states
}
