package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Check that packets share no mutable state: a flow rule over all functions of the package, and the
// interpreter's view of every object that exists once the package is initialised.

// frozen tells whether an object belongs to the package's initial state.
func (c *Ctx) frozen(id int) bool { _, ok := c.in.base[id]; return ok && id != 0 }

// watchShared reports writes to package-level objects.
func (c *Ctx) watchShared() {
	at := func() string { return c.in.ipos(c.in.curSite) }
	c.in.onWrite = func(st *State, id int) {
		if c.in.initMode || !c.frozen(id) {
			return
		}
		c.fail(st, "no-shared-write", "package-level state (%s) is written at %s", c.in.objName(id), at())
	}
	c.in.onMapSet = func(st *State, id int, k, v Val) {
		c.obl++
		if !c.in.initMode && c.frozen(id) {
			c.fail(st, "no-shared-write", "a package-level map (%s) is changed at %s", c.in.objName(id), at())
		}
	}
}

func (in *Interp) objName(id int) string {
	for g, x := range in.globals {
		if x == id {
			return g.Name()
		}
	}
	for g, x := range in.globals {
		if o := in.base[x]; o != nil {
			seen := map[int]string{}
			reached(newState(in), o.v, seen)
			if _, ok := seen[id]; ok {
				return "part of " + g.Name()
			}
		}
	}
	return fmt.Sprintf("object %d", id)
}

// reached are the objects a value gives access to, with the kind of the reference. Errors are left
// out: nobody can change what they refer to.
func reached(st *State, v Val, seen map[int]string) {
	see := func(id int, kind string) {
		if id == 0 {
			return
		}
		if _, ok := seen[id]; ok {
			return
		}
		seen[id] = kind
		reached(st, st.get(id), seen)
	}
	switch x := v.(type) {
	case *Slice:
		see(x.obj, "slice")
	case *Ptr:
		see(x.obj, "pointer")
	case *MapRef:
		see(x.obj, "map")
	case *StructV:
		for _, e := range x.f {
			reached(st, e, seen)
		}
	case *ArrV:
		for _, e := range x.e {
			reached(st, e, seen)
		}
	case Tuple:
		for _, e := range x {
			reached(st, e, seen)
		}
	case *Iface:
		if x.t != nil && types.Implements(x.t, errorIface) {
			return
		}
		reached(st, x.v, seen)
	case *MapV:
		for _, e := range x.ents {
			reached(st, e.k, seen)
			reached(st, e.v, seen)
		}
	case *Fin:
		for _, e := range x.tab {
			if e != nil {
				reached(st, e, seen)
			}
		}
	}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// private demands that what accessors give is no package-level memory.
func (c *Ctx) private(st *State, m *Iface, o []obsVal) {
	for _, x := range o {
		seen := map[int]string{}
		reached(st, st.finVal(x.v), seen)
		for id, kind := range seen {
			c.must(st, !c.frozen(id), "no-shared-memory", "%s gives access to package-level memory: %s of %s", x.name, kind, c.in.objName(id))
		}
		c.obl++
	}
}

func checkC27(r *Report) {
	flowRule(r)
	arbEach(r, nil, func(c *Ctx, ver, typ int64) {
		c.watchShared()
		c.arb(ver, typ, func(st *State, a *arbIn, o Outcome) {
			c.obl++
			c.decoded(st, o, func(st *State, msg, total Val) {
				m, ok := msg.(*Iface)
				if !ok || m.t == nil {
					return
				}
				c.appData(st, msg, func(st *State, what string, v Val) { c.private(st, m, []obsVal{{what, v}}) })
			}, nil)
		})
	})
	runScens(r, append(plainScens(), propScens()...), func(c *Ctx, st *State, p *pkt) {
		c.watchShared()
		c.observe(st, p.msg, func(st *State, o []obsVal) {
			c.private(st, p.msg, o)
			d := c.in.symKey("anybuf", "buffer", 0, 1<<42)
			c.encode(st, p.msg, S(d), "buffer", func(st *State, e encRes) { c.obl++ })
		})
	})
	for _, ver := range versions {
		for _, typ := range allTypes(ver) {
			ver, typ := ver, typ
			r.add(fmt.Sprintf("two new %s %s packets", vname(ver), typeNames[typ]), func(c *Ctx) {
				c.watchShared()
				c.newPkt(c.state(), ver, typ, func(st *State, p *pkt) {
					c.newPkt(st, ver, typ, func(st *State, q *pkt) {
						a, b := map[int]string{}, map[int]string{}
						reached(st, p.msg, a)
						reached(st, q.msg, b)
						for id, kind := range a {
							_, both := b[id]
							c.must(st, !both || c.frozen(id), "disjoint", "two new packets share memory: a %s", kind)
						}
					})
				})
			})
		}
		for _, to := range versions {
			from, to := ver, to
			var ps []int
			if from >= 5 {
				for i := range propTable {
					if propTable[i].types[tPUBLISH] {
						ps = append(ps, i)
					}
				}
			}
			r.add(fmt.Sprintf("Clone of a v%d PUBLISH for v%d", from, to), func(c *Ctx) {
				c.watchShared()
				o := opts{variant: "Set"}
				if len(ps) > 0 {
					o.props = func(c *Ctx, st *State) (l []*propVal) {
						for _, i := range ps {
							l = append(l, c.small(st, c.propOf(st, &propTable[i], 1, "")))
						}
						return
					}
				}
				c.base(c.state(), from, tPUBLISH, o, func(st *State, p *pkt) {
					c.inv(st, p.msg, "Clone", []Val{cst(to)}, func(st *State, rv Val) {
						c.split(st, func(st *State) {
							c.cells++
							if !c.nilErr(st, tup(rv, 1)) {
								return
							}
							a, b := map[int]string{}, map[int]string{}
							reached(st, p.msg, a)
							reached(st, st.finVal(tup(rv, 0)), b)
							var ids []int
							for id := range a {
								ids = append(ids, id)
							}
							sort.Ints(ids)
							for _, id := range ids {
								kind, both := b[id]
								c.must(st, !both || kind == "slice" || c.frozen(id), "disjoint", "the clone and the original share a %s", kind)
							}
						})
					})
				})
			})
		}
	}
}

// ---- flow rule ----------------------------------------------------------------------------------

// mutators are functions of other packages that change what their first argument refers to.
func mutator(f *ssa.Function) bool {
	n := f.String()
	for _, p := range []string{"sync/atomic.Add", "sync/atomic.Store", "sync/atomic.Swap", "sync/atomic.CompareAndSwap", "sync/atomic.And", "sync/atomic.Or",
		"(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Delete", "(*sync.Map).LoadAndDelete", "(*sync.Map).Swap", "(*sync.Map).Compare", "(*sync.Map).Clear",
		"(*bytes.Buffer).", "(*strings.Builder).", "(*math/rand.Rand).", "(*bufio.", "(*container/", "sort.", "slices.Sort", "slices.Reverse"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.HasPrefix(n, "(*sync/atomic.") {
		switch f.Name() {
		case "Add", "Store", "Swap", "CompareAndSwap", "And", "Or":
			return true
		}
	}
	return false
}

func hasPointers(t types.Type, depth int) bool {
	if depth > 5 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem(), depth+1)
	}
	return true
}

type retKey struct {
	fn *ssa.Function
	i  int
}

// flowRule follows package-level memory through every function that can run after initialisation.
func flowRule(r *Report) {
	p := r.prog.pkgs["mqttp"]
	if p == nil {
		undecided("package mqttp not found")
	}
	in := newInterp(r.prog)
	var all []*ssa.Function
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil {
			return
		}
		all = append(all, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			addFn(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := r.prog.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := r.prog.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
						addFn(f)
					}
				}
			}
		}
	}
	known := map[*ssa.Function]bool{}
	for _, f := range all {
		known[f] = true
	}
	isInit := func(f *ssa.Function) bool {
		return f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
	}
	// functions that initialisation merely calls, and nothing else refers to, do not run later
	live := map[*ssa.Function]bool{}
	var work []*ssa.Function
	mark := func(f *ssa.Function) {
		if known[f] && !live[f] && !isInit(f) {
			live[f] = true
			work = append(work, f)
		}
	}
	refs := func(f *ssa.Function, calls bool) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var skip ssa.Value
				if c, ok := i.(*ssa.Call); ok && !calls {
					skip = c.Call.Value
				}
				for n, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if ok && !(n == 0 && *op == skip) {
						mark(g)
					}
				}
			}
		}
	}
	for _, f := range all {
		if isInit(f) {
			refs(f, false)
		} else if f.Parent() == nil && (f.Object() == nil || f.Object().Exported() || f.Signature.Recv() != nil) {
			mark(f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		refs(f, true)
	}

	derived := map[ssa.Value]string{}
	rets := map[retKey]string{}
	changed := true
	set := func(v ssa.Value, from string) {
		if from == "" || derived[v] != "" {
			return
		}
		derived[v] = from
		changed = true
	}
	of := func(v ssa.Value) string {
		if g, ok := v.(*ssa.Global); ok && strings.HasPrefix(g.Pkg.Pkg.Path(), module) {
			return g.Name()
		}
		return derived[v]
	}
	ptr := func(v ssa.Value) bool { return hasPointers(v.Type(), 0) && !types.Implements(v.Type(), errorIface) }
	for changed {
		changed = false
		for f := range live {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.FieldAddr:
						set(x, of(x.X))
					case *ssa.IndexAddr:
						set(x, of(x.X))
					case *ssa.Slice:
						if _, str := x.X.Type().Underlying().(*types.Basic); !str {
							set(x, of(x.X))
						}
					case *ssa.ChangeType:
						set(x, of(x.X))
					case *ssa.ChangeInterface:
						set(x, of(x.X))
					case *ssa.MakeInterface:
						if ptr(x.X) {
							set(x, of(x.X))
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							set(x, of(e))
						}
					case *ssa.UnOp:
						if ptr(x) {
							set(x, of(x.X))
						}
					case *ssa.Field:
						if ptr(x) {
							set(x, of(x.X))
						}
					case *ssa.Index:
						if ptr(x) {
							set(x, of(x.X))
						}
					case *ssa.Lookup:
						if ptr(x) {
							set(x, of(x.X))
						}
					case *ssa.TypeAssert:
						if ptr(x) {
							set(x, of(x.X))
						}
					case *ssa.Range:
						set(x, of(x.X))
					case *ssa.Next:
						set(x, of(x.Iter))
					case *ssa.Extract:
						if !ptr(x) {
							break
						}
						if c, ok := x.Tuple.(*ssa.Call); ok {
							if g := c.Call.StaticCallee(); g != nil {
								set(x, rets[retKey{g, x.Index}])
							}
						} else {
							set(x, of(x.Tuple))
						}
					case *ssa.MakeClosure:
						g := x.Fn.(*ssa.Function)
						for n, b := range x.Bindings {
							set(g.FreeVars[n], of(b))
						}
					case *ssa.Return:
						for n, v := range x.Results {
							k := retKey{f, n}
							if s := of(v); s != "" && rets[k] == "" && ptr(v) {
								rets[k] = s
								changed = true
							}
						}
					case ssa.CallInstruction:
						cc := x.Common()
						g := cc.StaticCallee()
						if g == nil {
							break
						}
						if live[g] {
							for n, a := range cc.Args {
								if n < len(g.Params) {
									set(g.Params[n], of(a))
								}
							}
						}
						if v := x.Value(); v != nil {
							if _, tuple := v.Type().(*types.Tuple); !tuple && ptr(v) {
								set(v, rets[retKey{g, 0}])
							}
						}
					}
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range live {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		r.funcs[shortFn(f)] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				bad := ""
				switch x := i.(type) {
				case *ssa.Store:
					r.ok("")
					if s := of(x.Addr); s != "" {
						bad = "writes " + s
					}
				case *ssa.MapUpdate:
					r.ok("")
					if s := of(x.Map); s != "" {
						bad = "changes the map " + s
					}
				case *ssa.Go:
					bad = "starts a goroutine"
				case *ssa.Send:
					if s := of(x.Chan); s != "" {
						bad = "sends to " + s
					}
				}
				if x, ok := i.(ssa.CallInstruction); ok {
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok && len(cc.Args) > 0 {
						s := of(cc.Args[0])
						switch bi.Name() {
						case "copy", "delete", "clear":
							if s != "" {
								bad = bi.Name() + " changes " + s
							}
						case "append":
							if sl, ok := cc.Args[0].(*ssa.Slice); ok && s != "" && sl.High != nil && sl.Max == nil {
								bad = "appends over " + s
							}
						}
					}
					if g := cc.StaticCallee(); g != nil && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), module) {
						r.ok("")
						for n, a := range cc.Args {
							if s := of(a); s != "" && mutator(g) && n == 0 {
								bad = fmt.Sprintf("changes %s by %s", s, g)
							}
						}
						if g.String() == "time.AfterFunc" {
							bad = "starts a goroutine"
						}
					}
				}
				if bad != "" {
					r.fail(shortFn(f), "no-shared-write", "%s at %s", bad, in.ipos(i))
				}
			}
		}
	}
	r.ok(fmt.Sprintf("flow rule: %d functions, %d values derived from package-level variables", len(fs), len(derived)))
	if len(fs) == 0 {
		undecided("no functions")
	}
}
