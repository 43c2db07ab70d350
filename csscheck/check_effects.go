package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", checkEffects)
	register("C28", checkDeterminism)
}

// purePackages only compute: they have no effect outside of their arguments.
var purePackages = map[string]bool{
	"strings": true, "strconv": true, "errors": true, "sort": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"encoding/json": true, "encoding/base64": true, "encoding/hex": true, "encoding/binary": true, "math": true, "math/bits": true, "math/big": true,
	"reflect": true, "path": true, "path/filepath": true, "sync": true, "sync/atomic": true, "golang.org/x/sync/errgroup": true,
	"golang.org/x/sync/singleflight": true, "golang.org/x/sync/semaphore": true,
	"github.com/samsarahq/go/oops": true, "context": true, "bytes": true, "bufio": true, "io": true, "io/fs": true, "slices": true, "maps": true,
	"cmp": true, "iter": true, "container/list": true, "container/heap": true, "container/ring": true, "regexp": true, "regexp/syntax": true,
	"hash": true, "hash/fnv": true, "hash/crc32": true, "hash/maphash": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/md5": true,
	"text/scanner": true, "unsafe": true, "time": true, "math/rand": true, "math/rand/v2": true, "unique": true, "text/template": true, "html": true,
	"github.com/evanw/esbuild/pkg/api": false,
}

// readOnly are the functions of other packages that do not change anything either.
var readOnly = map[string]bool{
	"os.Stat": true, "os.Lstat": true, "os.Open": true, "os.ReadFile": true, "os.ReadDir": true, "os.Readlink": true, "os.Getwd": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "os.IsTimeout": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true,
	"os.DirFS": true, "os.SameFile": true, "os.IsPathSeparator": true, "os.ExpandEnv": true, "os.UserHomeDir": true, "os.Executable": true,
	"(*os.File).Close": true, "(*os.File).Read": true, "(*os.File).ReadAt": true, "(*os.File).Stat": true, "(*os.File).Name": true,
	"(*os.File).Readdir": true, "(*os.File).Readdirnames": true, "(*os.File).ReadDir": true, "(*os.File).Seek": true, "(*os.File).ReadFrom": false,
	"(*os.PathError).Error": true, "(*os.PathError).Unwrap": true,
	"io/ioutil.ReadFile": true, "io/ioutil.ReadDir": true, "io/ioutil.ReadAll": true, "io/ioutil.NopCloser": true,
	"fmt.Errorf": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Fprintln": true, "fmt.Fprintf": true, "fmt.Fprint": true,
	"fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Append": true, "fmt.Appendf": true,
	"runtime/pprof.SetGoroutineLabels": true, "runtime/pprof.WithLabels": true, "runtime/pprof.Labels": true, "runtime/pprof.Do": true,
	"runtime.Gosched": true, "runtime.GOMAXPROCS": false, "runtime.NumCPU": true, "runtime.Caller": true, "runtime.Callers": true, "runtime.Stack": true,
	"runtime.KeepAlive": true, "runtime/debug.Stack": true,
}

// callbackPackages declare interfaces whose implementations are supplied by the caller of the library.
var callbackPackages = map[string]bool{"os": true, "io": true, "io/fs": true, "fmt": true, "github.com/evanw/esbuild/pkg/api": true}

// fileNames are functions of otherwise pure packages that touch more than their arguments.
var impureExceptions = map[string]bool{}

func externalName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	if org := fn.Origin(); org != nil {
		if o, ok := org.Object().(*types.Func); ok {
			return o.FullName()
		}
	}
	return fn.String()
}

func effectAllowed(pkg *types.Package, name string) bool {
	if impureExceptions[name] {
		return false
	}
	if pkg == nil {
		return true // methods of universe types, e.g. error.Error
	}
	if allowed, ok := readOnly[name]; ok {
		return allowed
	}
	return purePackages[pkg.Path()]
}

func libraryFunctions(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.All {
		pk := fnPackage(fn)
		if pk.Name() == "main" || strings.HasSuffix(p.Fset.Position(fn.Pos()).Filename, "_test.go") {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func isReporterType(t types.Type) bool {
	for _, typ := range []types.Type{t, types.NewPointer(t)} {
		if sel := types.NewMethodSet(typ).Lookup(nil, "AddError"); sel != nil {
			return true
		}
	}
	return false
}

// onlyFeedsReporter follows a standard stream: it may only become part of a reporter.
func onlyFeedsReporter(v ssa.Value, seen map[ssa.Value]bool) (bool, ssa.Instruction) {
	if seen[v] {
		return true, nil
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false, nil
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Phi, *ssa.ChangeType:
			if ok, at := onlyFeedsReporter(r.(ssa.Value), seen); !ok {
				return false, at
			}
		case *ssa.Store:
			if r.Addr == v {
				return false, r
			}
			fa, ok := r.Addr.(*ssa.FieldAddr)
			if ok && isReporterType(deref(fa.X.Type())) {
				continue
			}
			return false, r
		case *ssa.Call:
			// A constructor of a reporter in the repository.
			if c := r.Call.StaticCallee(); c != nil && inRepo(c) && c.Signature.Results().Len() == 1 && isReporterType(c.Signature.Results().At(0).Type()) {
				continue
			}
			return false, r
		default:
			return false, r
		}
	}
	return true, nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func checkEffects(p *Program, r *Report) {
	r.Rule = "every call, function value and global of the library that leaves the repository is on a confirmed list of read-only operations; standard streams only flow into reporters"
	r.Explanation = "Effect analysis over the type-checked program: all instructions of all functions of all library packages (package main excluded) are visited; every callee or referenced function outside of the repository is resolved through its type-checked object and compared with an allowlist of packages that only compute and of file-system functions that only read. Calls through interfaces are checked by the interface method's package."
	r.Assumptions = []string{"the listed standard library and dependency functions do what their documentation says", "effects of user-supplied callbacks (resolver, reporter, options, esbuild) are the user's"}
	fns := libraryFunctions(p)
	calls, refs := 0, 0
	names := map[string]int{}
	for _, fn := range fns {
		pk := strings.TrimPrefix(fnPackage(fn).Path(), modulePath)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
						r.Violation("effect:"+fn.String()+":"+bi.Name(), "%s: %s calls the builtin %s, which prints past the reporter", p.Pos(instrPos(in)), fn, bi.Name())
					}
					if cc.IsInvoke() {
						calls++
						m := cc.Method
						if m.Pkg() != nil && !pkgInRepo(m.Pkg()) && !effectAllowed(m.Pkg(), m.FullName()) && !callbackPackages[m.Pkg().Path()] {
							r.Violation("effect:"+fn.String()+":"+m.FullName(), "%s: %s calls %s, which is not known to be read-only", p.Pos(instrPos(in)), fn, m.FullName())
						}
					} else if cc.StaticCallee() != nil {
						calls++
					}
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						if inRepo(v) || v.Blocks != nil && fnPackage(v) == nil {
							continue
						}
						if v.Synthetic == "package initializer" || v.Name() == "init" && fn.Synthetic == "package initializer" {
							continue // importing a package
						}
						refs++
						name := externalName(v)
						names[name]++
						if !effectAllowed(fnPackage(v), name) {
							r.Violation("effect:"+fn.String()+":"+name, "%s: %s (%s) uses %s, which is not known to be read-only: the library must not write, run, connect, exit, print or change process-wide state", p.Pos(instrPos(in)), fn, pk, name)
						}
					case *ssa.Global:
						if v.Pkg != nil && pkgInRepo(v.Pkg.Pkg) {
							continue
						}
						gname := v.Pkg.Pkg.Path() + "." + v.Name()
						if st, ok := in.(*ssa.Store); ok && st.Addr == v {
							r.Violation("effect:"+fn.String()+":store:"+gname, "%s: %s assigns %s, which is process-wide state", p.Pos(instrPos(in)), fn, gname)
							continue
						}
						if gname == "os.Stdout" || gname == "os.Stderr" || gname == "os.Stdin" {
							refs++
							u, ok := in.(*ssa.UnOp)
							if !ok || u.Op != token.MUL {
								r.Violation("stream:"+fn.String()+":"+gname, "%s: %s takes the address of %s", p.Pos(instrPos(in)), fn, gname)
								continue
							}
							if ok, at := onlyFeedsReporter(u, map[ssa.Value]bool{}); !ok {
								where := p.Pos(instrPos(in))
								if at != nil {
									where = p.Pos(instrPos(at))
								}
								r.Violation("stream:"+fn.String()+":"+gname, "%s: %s uses %s for something else than to make a reporter", where, fn, gname)
							}
						}
					}
				}
			}
		}
	}
	for _, n := range sortedKeys(names) {
		r.Sample("%s: %d uses", n, names[n])
	}
	r.Require("functions", len(fns), 120)
	r.Require("calls", calls, 400)
	r.Require("references outside of the repository", refs, 80)
	// Positive control: the rule recognises what it is meant to find.
	for _, bad := range []string{"os.WriteFile", "os.Remove", "os.Exit", "os/exec.Command", "fmt.Println", "log.Printf", "net.Dial", "os.Setenv", "io/ioutil.WriteFile"} {
		pkg := bad[:strings.LastIndex(bad, ".")]
		if effectAllowed(types.NewPackage(pkg, pkg), bad) {
			r.Violation("control:"+bad, "the rule would accept %s", bad)
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// reachableFrom is the set of repository functions reachable from the roots, with
// interface calls resolved to every implementation in the repository, and function
// values taken as called.
func reachableFrom(p *Program, roots ...*ssa.Function) map[*ssa.Function]bool {
	byMethod := map[string][]*ssa.Function{}
	for _, fn := range p.All {
		if fn.Signature.Recv() != nil {
			byMethod[fn.Name()] = append(byMethod[fn.Name()], fn)
		}
	}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		pk := fnPackage(fn)
		if pk != nil && !pkgInRepo(pk) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					iface, _ := c.Common().Value.Type().Underlying().(*types.Interface)
					for _, impl := range byMethod[m.Name()] {
						if iface != nil && types.Implements(impl.Signature.Recv().Type(), iface) {
							visit(impl)
						}
					}
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						visit(f)
					}
				}
			}
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

var nondeterministic = []string{
	"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc",
	"path/filepath.Abs", "path/filepath.Glob", "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.EvalSymlinks",
	"math/rand.", "math/rand/v2.", "crypto/rand.", "os.", "io/ioutil.", "runtime.", "runtime/debug.", "hash/maphash.", "net.", "net/http.", "syscall.",
	"(*math/rand.", "(*math/rand/v2.", "unsafe.", "maps.Keys", "maps.Values", "maps.All",
	"(*sync.Map).", "(*sync.Pool).", "(*sync.WaitGroup).Go", "(*golang.org/x/sync/errgroup.Group).Go",
	"(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "fmt.Print",
}

func checkDeterminism(p *Program, r *Report) {
	r.Rule = "no clock, randomness, environment, file, goroutine, channel, written package variable or order-sensitive map iteration is reachable from parsing, transforming or printing"
	r.Explanation = "Reachability over the resolved call graph (interface calls to all implementations, function values taken as called) from the entry points of the parser, the transformer and the printer; every instruction of every reachable function is classified. Map iterations are accepted only if a data-flow check shows the body insensitive to the order (it only fills or deletes from maps, or collects into a slice that is sorted before use). Package variables that reachable code reads are checked to be written by initialisers only."
	r.Assumptions = []string{"standard library functions outside of the listed ones are deterministic functions of their arguments"}
	var roots []*ssa.Function
	for _, e := range [][2]string{{"internal/parser", "Parse"}, {"internal/transformer", "Transform"}, {"internal/printer", "Print"}} {
		f := p.Func(e[0], e[1])
		if f == nil {
			r.Violation("anchor:"+e[1], "the entry point %s of %s is gone", e[1], e[0])
			continue
		}
		roots = append(roots, f)
	}
	reach := reachableFrom(p, roots...)
	r.Require("reachable functions", len(reach), 60)

	// Who writes which package variable, apart from initialisers?
	writers := map[*ssa.Global][]ssa.Instruction{}
	for _, fn := range libraryFunctions(p) {
		if fn.Synthetic == "package initializer" || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g := writtenGlobal(in); g != nil {
					writers[g] = append(writers[g], in)
				}
			}
		}
	}

	aliased := aliasWrites(p)

	var fns []*ssa.Function
	for fn := range reach {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	instrs, globals, ranges := 0, 0, 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				instrs++
				where := p.Pos(instrPos(in))
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					r.Violation("concurrency:"+fn.String(), "%s: %s uses goroutines or channels, so its result may depend on the schedule", where, fn)
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						ranges++
						if why := orderSensitive(p, x); why != "" {
							r.Violation("maprange:"+fn.String(), "%s: %s iterates over a map, and the iteration order shows: %s", where, fn, why)
						}
					}
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						if fnPackage(v) == nil || inRepo(v) {
							continue
						}
						name := externalName(v)
						for _, bad := range nondeterministic {
							if name == bad || (strings.HasSuffix(bad, ".") || bad == "fmt.Print") && strings.HasPrefix(name, bad) {
								r.Violation("nondet:"+fn.String()+":"+name, "%s: %s uses %s: the output would depend on more than the input", where, fn, name)
							}
						}
						if strings.HasPrefix(name, "fmt.") {
							if c, ok := in.(ssa.CallInstruction); ok && formatsPointer(c.Common()) {
								r.Violation("pointer:"+fn.String(), "%s: %s formats a pointer", where, fn)
							}
						}
					case *ssa.Global:
						if v.Pkg == nil {
							continue
						}
						if !pkgInRepo(v.Pkg.Pkg) {
							continue
						}
						globals++
						if w := aliased[v]; w != nil {
							r.Violation("global:"+v.String(), "%s: %s uses the package variable %s, whose contents %s changes at %s", where, fn, v, w.Parent(), p.Pos(instrPos(w)))
							continue
						}
						if ws := writers[v]; len(ws) > 0 {
							r.Violation("global:"+v.String(), "%s: %s uses the package variable %s, which %s writes at %s", where, fn, v, ws[0].Parent(), p.Pos(instrPos(ws[0])))
						}
					}
				}
			}
		}
		r.Sample("%s", fn)
	}
	r.Require("instructions", instrs, 3000)
	r.Require("package variable uses", globals, 5)
	r.Counts["map iterations"] = ranges
}

// writtenGlobal is the package variable that an instruction writes to or into.
func writtenGlobal(in ssa.Instruction) *ssa.Global {
	switch x := in.(type) {
	case *ssa.Store:
		return rootGlobal(x.Addr, 0)
	case *ssa.MapUpdate:
		return rootGlobal(x.Map, 0)
	case *ssa.Send:
		return rootGlobal(x.Chan, 0)
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "copy", "clear", "append":
				if len(c.Args) > 0 {
					return rootGlobal(c.Args[0], 0)
				}
			}
			return nil
		}
		if callee := c.StaticCallee(); callee != nil && !inRepo(callee) && callee.Signature.Recv() != nil && len(c.Args) > 0 {
			// A method with a pointer receiver outside of the repository (sync.Map, bytes.Buffer, ...) may write.
			if _, ok := callee.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				if pk := fnPackage(callee); pk != nil && (pk.Path() == "regexp" || pk.Path() == "encoding/base64" || callee.Name() == "Lock" || callee.Name() == "Unlock" || callee.Name() == "RLock" || callee.Name() == "RUnlock") {
					return nil
				}
				return rootGlobal(c.Args[0], 0)
			}
		}
	}
	return nil
}

func rootGlobal(v ssa.Value, depth int) *ssa.Global {
	if depth > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return rootGlobal(x.X, depth+1)
	case *ssa.IndexAddr:
		return rootGlobal(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return rootGlobal(x.X, depth+1)
		}
	case *ssa.Slice:
		return rootGlobal(x.X, depth+1)
	case *ssa.ChangeType:
		return rootGlobal(x.X, depth+1)
	case *ssa.Convert:
		return nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := rootGlobal(e, depth+5); g != nil {
				return g
			}
		}
	case *ssa.Lookup:
		return rootGlobal(x.X, depth+1)
	case *ssa.Field:
		return rootGlobal(x.X, depth+1)
	}
	return nil
}

func formatsPointer(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			return true
		}
	}
	return false
}

// orderSensitive says why the iterations of a map range do not commute, or "".
func orderSensitive(p *Program, rng *ssa.Range) string {
	fn := rng.Parent()
	// The loop is the set of blocks from which the Next instruction's block is reachable again.
	var next *ssa.Next
	for _, ref := range *rng.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	loop := map[*ssa.BasicBlock]bool{}
	var mark func(b *ssa.BasicBlock)
	mark = func(b *ssa.BasicBlock) {
		if loop[b] {
			return
		}
		loop[b] = true
		for _, pr := range b.Preds {
			mark(pr)
		}
	}
	loop[head] = true
	for _, pr := range head.Preds {
		if head.Dominates(pr) {
			mark(pr)
		}
	}
	// Leaving early picks an arbitrary element.
	for b := range loop {
		for _, s := range b.Succs {
			if !loop[s] && b != head {
				return "the loop is left early at " + p.Pos(instrPos(b.Instrs[len(b.Instrs)-1]))
			}
		}
		if b != head {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return "the loop returns early"
			}
		}
	}
	for _, b := range fn.Blocks {
		if !loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				// Keys that depend on the iteration are distinct per iteration or overwritten with the same value.
			case *ssa.Store:
				if al, ok := rootAlloc(x.Addr); ok && loop[al.Block()] {
					continue // a variable of one iteration
				}
				if kv, ok := x.Val.(*ssa.Const); ok && kv != nil {
					continue // a flag
				}
				return "it stores at " + p.Pos(instrPos(in))
			case *ssa.Phi:
				if b != head {
					continue
				}
				if accumulates(x, loop) {
					continue
				}
				if sortedLater(x, loop) {
					continue
				}
				return "it accumulates at " + p.Pos(instrPos(in))
			case *ssa.Go, *ssa.Defer, *ssa.Send:
				return "it starts something at " + p.Pos(instrPos(in))
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "delete", "append", "min", "max", "copy":
						continue
					}
				}
				c := x.Call.StaticCallee()
				if c != nil && !inRepo(c) && effectAllowed(fnPackage(c), externalName(c)) && !strings.Contains(externalName(c), "Builder") && !strings.Contains(externalName(c), "Buffer") {
					continue
				}
				if c != nil && inRepo(c) && pureFunction(c, 0) {
					continue
				}
				return "it calls " + x.Call.String() + " at " + p.Pos(instrPos(in))
			}
		}
	}
	return ""
}

func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil, false
		}
	}
	return nil, false
}

// accumulates recognises order-insensitive accumulation: integer sums, counts, min/max, boolean or/and.
func accumulates(phi *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	b, ok := phi.Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	for i, e := range phi.Edges {
		if !loop[phi.Block().Preds[i]] {
			continue
		}
		if e == phi {
			continue
		}
		switch x := e.(type) {
		case *ssa.BinOp:
			if b.Info()&types.IsInteger != 0 && (x.Op == token.ADD || x.Op == token.OR || x.Op == token.XOR || x.Op == token.AND || x.Op == token.MUL) && (x.X == phi || x.Y == phi) {
				continue
			}
			return false
		case *ssa.Const:
			continue
		case *ssa.Phi:
			if x == phi {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

// sortedLater recognises a slice that is only collected in the loop and sorted after it.
func sortedLater(phi *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for _, ref := range *phi.Referrers() {
		if loop[ref.Block()] {
			continue
		}
		switch x := ref.(type) {
		case *ssa.DebugRef:
			continue
		case ssa.CallInstruction:
			if isSort(x.Common()) {
				return true
			}
		case *ssa.MakeInterface, *ssa.ChangeType:
			if rs := x.(ssa.Value).Referrers(); rs != nil {
				for _, rr := range *rs {
					if c, ok := rr.(ssa.CallInstruction); ok && isSort(c.Common()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isSort(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	n := externalName(f)
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort")
}

// pureFunction says whether a repository function only computes.
func pureFunction(fn *ssa.Function, depth int) bool {
	if depth > 6 || len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := rootAlloc(x.Addr); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Send, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				c := x.Call.StaticCallee()
				if c == nil {
					return false
				}
				if !inRepo(c) {
					if !purePackages[fnPackage(c).Path()] || strings.Contains(externalName(c), "Builder") {
						return false
					}
					continue
				}
				if !pureFunction(c, depth+1) {
					return false
				}
			}
		}
	}
	return true
}
