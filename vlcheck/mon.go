package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Checks of the statistics counters (vlmonitoring). Every function of the package is interpreted
// with counters that other goroutines change all the time: each atomic read gives an unknown value,
// a compare-and-swap may fail or succeed, an atomic addition gives an unknown result.

type event struct {
	op    string // load, store, add, swap, cas, casfail, plain
	obj   int
	cell  string
	a, b  *Aff // operands: store a; add a; swap a; cas a -> b
	res   *Aff
	where string
	what  string
}

type monCtx struct {
	*Ctx
	live map[int]bool
}

func cellName(p *Ptr) string { return fmt.Sprint(p.path) }

// monitor replaces the atomic operations.
func (c *Ctx) monitor() *monCtx {
	m := &monCtx{c, map[int]bool{}}
	in := c.in
	hasCell := func(t types.Type) bool { return len(cells(t)) > 0 }
	in.onPlain = func(st *State, p *Ptr, t types.Type, how string, site ssa.Instruction) {
		if m.live[p.obj] && hasCell(t) {
			m.log(st, event{op: "plain", obj: p.obj, cell: cellName(p), where: in.ipos(site), what: how})
		}
	}
	u64 := types.Typ[types.Uint64]
	ptr := func(st *State, v Val, typed bool, site ssa.Instruction) *Ptr {
		p := in.ptr(st, v, types.NewPointer(u64), site)
		if typed { // sync/atomic.Uint64 and the like: the value is the last field
			if s, ok := in.loadPtr(st, p, nil).(*StructV); ok {
				return &Ptr{p.obj, append(append([]int(nil), p.path...), len(s.f)-1), nil}
			}
		}
		return p
	}
	unknown := func(st *State, what string) *Aff {
		return S(in.symKey(fmt.Sprintf("event|%d|%s", len(st.events), what), what, 0, 1<<60))
	}
	num := func(st *State, v Val) *Aff { return st.residue(st.affOf(v)) }
	type op func(st *State, p *Ptr, args []Val, site ssa.Instruction) []Outcome
	ops := map[string]op{
		"Load": func(st *State, p *Ptr, args []Val, site ssa.Instruction) []Outcome {
			if !m.live[p.obj] {
				return one(st, in.loadPtr(st, p, u64))
			}
			v := unknown(st, "read")
			m.log(st, event{op: "load", obj: p.obj, cell: cellName(p), res: v, where: in.ipos(site)})
			return one(st, &Num{v})
		},
		"Store": func(st *State, p *Ptr, args []Val, site ssa.Instruction) []Outcome {
			if !m.live[p.obj] {
				in.storePtr(st, p, args[0])
				return one(st, Tuple{})
			}
			m.log(st, event{op: "store", obj: p.obj, cell: cellName(p), a: num(st, args[0]), where: in.ipos(site)})
			return one(st, Tuple{})
		},
		"Add": func(st *State, p *Ptr, args []Val, site ssa.Instruction) []Outcome {
			if !m.live[p.obj] {
				v := st.numOp(token.ADD, in.loadPtr(st, p, u64), args[0], u64)
				in.storePtr(st, p, v)
				return one(st, v)
			}
			v := unknown(st, "sum")
			m.log(st, event{op: "add", obj: p.obj, cell: cellName(p), a: num(st, args[0]), res: v, where: in.ipos(site)})
			return one(st, &Num{v})
		},
		"Swap": func(st *State, p *Ptr, args []Val, site ssa.Instruction) []Outcome {
			if !m.live[p.obj] {
				v := in.loadPtr(st, p, u64)
				in.storePtr(st, p, args[0])
				return one(st, v)
			}
			v := unknown(st, "old")
			m.log(st, event{op: "swap", obj: p.obj, cell: cellName(p), a: num(st, args[0]), res: v, where: in.ipos(site)})
			return one(st, &Num{v})
		},
		"CompareAndSwap": func(st *State, p *Ptr, args []Val, site ssa.Instruction) []Outcome {
			if !m.live[p.obj] {
				if st.must(st.equal(in.loadPtr(st, p, u64), args[0])) {
					in.storePtr(st, p, args[1])
					return one(st, cst(1))
				}
				return one(st, cst(0))
			}
			a, b := num(st, args[0]), num(st, args[1])
			if st.must(in.boolKey(fmt.Sprintf("cas|%d", len(st.events)), "cas")) {
				m.log(st, event{op: "cas", obj: p.obj, cell: cellName(p), a: a, b: b, where: in.ipos(site)})
				return one(st, cst(1))
			}
			n := 0
			for _, e := range st.events {
				if e.op == "casfail" {
					n++
				}
			}
			m.log(st, event{op: "casfail", obj: p.obj, cell: cellName(p), a: a, b: b, where: in.ipos(site)})
			if n >= 3 { // every attempt starts from unknown values again
				st.dead = true
				return nil
			}
			return one(st, cst(0))
		},
	}
	for name, f := range ops {
		f := f
		for _, w := range []string{"Uint64", "Int64"} {
			in.override["sync/atomic."+name+w] = func(in *Interp, st *State, args []Val, site ssa.Instruction) []Outcome {
				return f(st, ptr(st, args[0], false, site), args[1:], site)
			}
			in.override["(*sync/atomic."+w+")."+name] = func(in *Interp, st *State, args []Val, site ssa.Instruction) []Outcome {
				return f(st, ptr(st, args[0], true, site), args[1:], site)
			}
		}
	}
	return m
}

func (m *monCtx) log(st *State, e event) {
	st.events = append(st.events[:len(st.events):len(st.events)], e)
}

// cells are the paths of the 64-bit integers in a type.
func cells(t types.Type) (r [][]int) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Kind() == types.Uint64 || b.Kind() == types.Int64 {
			r = append(r, []int{})
		}
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		for _, p := range cells(s.Field(i).Type()) {
			r = append(r, append([]int{i}, p...))
		}
	}
	return
}

// monFunc is a function of the monitoring API, with its parameters.
type monFunc struct {
	name string
	fn   *ssa.Function
	recv *types.Named
}

// monAPI lists the functions and the methods of all structures that hold counters.
func monAPI(c *Ctx) (r []monFunc) {
	sc := c.p.Pkg.Scope()
	for _, name := range sc.Names() {
		switch o := sc.Lookup(name).(type) {
		case *types.Func:
			if o.Exported() {
				r = append(r, monFunc{name, c.p.Func(name), nil})
			}
		case *types.TypeName:
			n, ok := o.Type().(*types.Named)
			if !ok || len(cells(n)) == 0 {
				continue
			}
			ms := c.in.prog.MethodSets.MethodSet(types.NewPointer(n))
			for i := 0; i < ms.Len(); i++ {
				if f := c.in.prog.MethodValue(ms.At(i)); f != nil && ms.At(i).Obj().Exported() {
					r = append(r, monFunc{name + "." + ms.At(i).Obj().Name(), f, n})
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return
}

// monArgs are the arguments of one call: the first pointer to counters is live, further ones are
// private snapshots.
type monArgs struct {
	st    *State
	vals  []Val
	live  int   // object of the live counter
	snap  []int // objects of the snapshots
	liveT types.Type
	snapT []types.Type
	nums  []*Aff
}

func (m *monCtx) args(f monFunc) *monArgs {
	a := &monArgs{st: m.state()}
	for i, p := range f.fn.Params {
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok && len(cells(pt.Elem())) > 0 {
			id := a.st.alloc(m.in.fresh(a.st, pt.Elem(), fmt.Sprintf("counter%d", i)), pt.Elem(), p.Name())
			a.vals = append(a.vals, &Ptr{obj: id})
			if a.live == 0 {
				a.live, a.liveT = id, pt.Elem()
				m.live[id] = true
			} else {
				a.snap, a.snapT = append(a.snap, id), append(a.snapT, pt.Elem())
			}
			continue
		}
		v := m.in.fresh(a.st, t, p.Name())
		if n, ok := v.(*Num); ok {
			a.nums = append(a.nums, n.e)
		}
		a.vals = append(a.vals, v)
	}
	return a
}

// call runs a function of the monitoring API.
func (m *monCtx) call(f monFunc, k func(st *State, a *monArgs, r Val)) {
	a := m.args(f)
	outs := m.in.call(a.st.clone(), &Func{fn: f.fn}, a.vals, nil)
	m.each(a.st, outs, f.name, func(st *State, r Val) {
		m.split(st, func(st *State) {
			m.cells++
			k(st, a, r)
		})
	})
}

func monEach(r *Report, k func(c *monCtx, f monFunc)) {
	p := r.prog.pkgs["vlmonitoring"]
	if p == nil {
		undecided("package vlmonitoring not found")
	}
	fs := monAPI(&Ctx{in: newInterp(r.prog), p: p})
	if len(fs) == 0 {
		undecided("vlmonitoring has no counters")
	}
	for _, f := range fs {
		f := f
		r.addPkg("vlmonitoring", f.name, func(c *Ctx) { k(c.monitor(), f) })
	}
}

// uses tells whether a depends on the unknown b.
func usesAff(a, b *Aff) bool {
	s := b.single()
	if a == nil || s == nil {
		return false
	}
	for _, t := range a.t {
		if t.s == s {
			return true
		}
	}
	return false
}

func checkM01(r *Report) {
	monEach(r, func(c *monCtx, f monFunc) {
		c.call(f, func(st *State, a *monArgs, rv Val) {
			for i, e := range st.events {
				c.must(st, e.op != "plain", "atomic", "a live counter is %s without synchronisation at %s", e.what, e.where)
				if e.op != "store" && e.op != "swap" && e.op != "add" {
					continue
				}
				for _, o := range st.events[:i] {
					if o.obj == e.obj && o.cell == e.cell && o.res != nil {
						c.must(st, !usesAff(e.a, o.res), "single-operation", "the value %s at %s was read at %s before: updates in between are lost", map[string]string{"store": "stored", "swap": "stored", "add": "added"}[e.op], e.where, o.where)
					}
				}
			}
		})
	})
}

// maxCell is the cell of the recorded maximum in a type that has one.
func maxCells(t types.Type, pre []int, r map[string]bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	n, _ := t.(*types.Named)
	for i := 0; i < s.NumFields(); i++ {
		p := append(append([]int(nil), pre...), i)
		if n != nil && n.Obj().Name() == "Max" && s.Field(i).Name() == "Max" {
			for _, c := range cells(s.Field(i).Type()) {
				r[fmt.Sprint(append(append([]int(nil), p...), c...))] = true
			}
			continue
		}
		maxCells(s.Field(i).Type(), p, r)
	}
}

func checkM02(r *Report) {
	monEach(r, func(c *monCtx, f monFunc) {
		c.call(f, func(st *State, a *monArgs, rv Val) {
			if a.liveT == nil {
				return
			}
			max := map[string]bool{}
			maxCells(a.liveT, nil, max)
			for _, e := range st.events {
				if e.obj != a.live || !max[e.cell] {
					continue
				}
				switch e.op {
				case "cas":
					c.must(st, st.decideAff('g', e.b.minus(e.a)) == 1, "never-decreases", "the maximum is replaced at %s by %s, which can be less than the old %s", e.where, e.b, e.a)
				case "store", "swap":
					c.must(st, false, "never-decreases", "the maximum is overwritten at %s, whatever it has become", e.where)
				case "add":
					lo, _ := st.bounds(e.a)
					c.must(st, lo >= 0, "never-decreases", "the maximum is changed by %s at %s", e.a, e.where)
				}
			}
			if n, ok := a.liveT.(*types.Named); !ok || n.Obj().Name() != "Max" || !strings.HasSuffix(f.name, ".AddU64") {
				return
			}
			for _, e := range st.events {
				if e.obj != a.live || max[e.cell] {
					continue
				}
				sum := e.res
				if e.op == "cas" {
					sum = e.b
				} else if e.op != "add" {
					continue
				}
				ok := false
				for _, o := range st.events {
					if o.obj != a.live || !max[o.cell] {
						continue
					}
					switch o.op {
					case "load", "add":
						ok = ok || st.decideAff('g', o.res.minus(sum)) == 1
					case "cas":
						ok = ok || st.decideAff('g', o.b.minus(sum)) == 1 || st.decideAff('g', o.a.minus(sum)) == 1
					}
				}
				c.must(st, ok, "at-least", "the addition returns although the maximum may be less than the value %s it gave at %s", sum, e.where)
			}
		})
	})
	r.addPkg("vlmonitoring", "recorded maximum", func(c *Ctx) {
		max := map[string]bool{}
		maxCells(c.typ("Max"), nil, max)
		if len(max) != 1 || c.methodOf(types.NewPointer(c.typ("Max")), "AddU64") == nil {
			undecided("Max.Max or Max.AddU64 not found")
		}
	})
}

// effect is the change of each cell of an object on a path, and the result of the last change.
func (m *monCtx) effect(st *State, obj int) (delta map[string]*Aff, res map[string]*Aff, n map[string]int) {
	delta, res, n = map[string]*Aff{}, map[string]*Aff{}, map[string]int{}
	for _, e := range st.events {
		if e.obj != obj {
			continue
		}
		var d, r *Aff
		switch e.op {
		case "add":
			d, r = e.a, e.res
		case "cas":
			d, r = e.b.minus(e.a), e.b
		case "store", "swap", "plain":
			if e.op == "plain" && e.what == "read" {
				continue
			}
			d, r = S(m.in.symKey("lost|"+e.where, "unknown", -1<<60, 1<<60)), nil
		default:
			continue
		}
		if delta[e.cell] == nil {
			delta[e.cell] = K(0)
		}
		delta[e.cell] = st.norm(delta[e.cell].plus(d))
		res[e.cell] = r
		n[e.cell]++
	}
	return
}

// only expects that exactly the given cell changed, by d.
func (m *monCtx) only(st *State, obj int, cell []int, d *Aff, what string) *Aff {
	delta, res, _ := m.effect(st, obj)
	name := fmt.Sprint(cell)
	for c, x := range delta {
		if c != name {
			m.must(st, st.decideAff('=', st.residue(x)) == 1, "right-counter", "%s changes another counter by %s", what, x)
		}
	}
	x := delta[name]
	if x == nil {
		x = K(0)
	}
	m.must(st, st.decideAff('=', st.residue(x.minus(d))) == 1, "amount", "%s changes the counter by %s instead of %s", what, x, d)
	return res[name]
}

// under gives the cells below a field.
func cellsUnder(t types.Type, field string) (r [][]int) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		undecided("%s is not a structure", t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			for _, c := range cells(s.Field(i).Type()) {
				r = append(r, append([]int{i}, c...))
			}
		}
	}
	return
}

func oneCell(cs [][]int, what string) []int {
	if len(cs) != 1 {
		undecided("%s has %d counters", what, len(cs))
	}
	return cs[0]
}

func checkM03(r *Report) {
	method := func(typ, name string, k func(c *monCtx, f monFunc, n *types.Named)) {
		r.addPkg("vlmonitoring", typ+"."+name, func(c *Ctx) {
			n, ok := c.typ(typ).(*types.Named)
			if !ok {
				undecided("type %s", typ)
			}
			fn := c.methodOf(types.NewPointer(n), name)
			if fn == nil {
				undecided("method %s.%s not found", typ, name)
			}
			k(c.monitor(), monFunc{typ + "." + name, fn, n}, n)
		})
	}
	returns := func(c *monCtx, st *State, rv Val, res *Aff, what string) {
		v := st.residue(st.affOf(rv))
		c.must(st, res != nil && st.decideAff('=', v.minus(res)) == 1, "result", "%s returns %s instead of the new value %s", what, v, res)
	}
	nums := func(a *monArgs) *Aff {
		if len(a.nums) != 1 {
			undecided("parameters")
		}
		return a.nums[0]
	}
	method("Counter", "AddU64", func(c *monCtx, f monFunc, n *types.Named) {
		cell := oneCell(cells(n), "Counter")
		c.call(f, func(st *State, a *monArgs, rv Val) {
			returns(c, st, rv, c.only(st, a.live, cell, nums(a), "adding"), "AddU64")
		})
	})
	for _, dir := range []string{"Sent", "Recv"} {
		dir := dir
		for _, typ := range []string{"FlowCounter", "Bytes"} {
			typ := typ
			method(typ, dir+"AddU64", func(c *monCtx, f monFunc, n *types.Named) {
				fc := types.Type(c.typ("FlowCounter"))
				cell := oneCell(cellsUnder(fc, dir), dir)
				if typ == "Bytes" {
					cell = append(oneCellPrefix(n, fc), cell...)
				}
				c.call(f, func(st *State, a *monArgs, rv Val) {
					returns(c, st, rv, c.only(st, a.live, cell, nums(a), "adding "+dir), dir+"AddU64")
				})
			})
		}
	}
	maxState := func(c *monCtx, n *types.Named) []int {
		max := map[string]bool{}
		maxCells(n, nil, max)
		var r [][]int
		for _, p := range cells(n) {
			if !max[fmt.Sprint(p)] {
				r = append(r, p)
			}
		}
		return oneCell(r, "Max")
	}
	for name, sign := range map[string]int64{"AddU64": 1, "SubU64": -1} {
		name, sign := name, sign
		method("Max", name, func(c *monCtx, f monFunc, n *types.Named) {
			cell := maxState(c, n)
			max := map[string]bool{}
			maxCells(n, nil, max)
			c.call(f, func(st *State, a *monArgs, rv Val) {
				delta, _, _ := c.effect(st, a.live)
				d := delta[fmt.Sprint(cell)]
				if d == nil {
					d = K(0)
				}
				c.must(st, st.decideAff('=', st.residue(d.minus(nums(a).scale(sign)))) == 1, "amount", "%s of n changes the value by %s, n is %s", name, d, nums(a))
			})
		})
	}
	// differences: for each pair of cells, the result is read-old and the snapshot becomes the value read
	diff := func(c *monCtx, st *State, a *monArgs, cell []int, old *Aff, res *Aff, what string) {
		now := st.residue(st.affOf(c.in.loadPtr(st, &Ptr{a.snap[0], cell, nil}, nil)))
		hit := false
		for _, e := range st.events {
			if e.op == "load" && e.obj == a.live && e.cell == fmt.Sprint(cell) && st.decideAff('=', st.residue(now.minus(e.res))) == 1 {
				hit = true
			}
		}
		c.must(st, hit, "advance", "%s: the snapshot becomes %s, which is no value read from the counter", what, now)
		c.must(st, st.decideAff('=', st.residue(now.minus(old).minus(res))) == 1, "difference", "%s: the difference reported is %s, the snapshot moved from %s to %s", what, res, old, now)
	}
	for _, typ := range []string{"Counter", "FlowCounter", "Bytes"} {
		typ := typ
		method(typ, "Diff", func(c *monCtx, f monFunc, n *types.Named) {
			c.call(f, func(st *State, a *monArgs, rv Val) {
				if len(a.snap) != 1 {
					undecided("Diff takes %d snapshots", len(a.snap))
				}
				at := a.snapT[0]
				lt := a.liveT
				pre := []int{}
				if !types.Identical(at, lt) {
					pre = oneCellPrefix(lt, at)
				}
				for _, cell := range cells(at) {
					old := st.residue(st.affOf(getPath(a.st.get(a.snap[0]), cell)))
					res := st.residue(st.affOf(getPath(st.finVal(rv), cell)))
					b := *a
					if len(pre) > 0 {
						for i := range st.events { // express the live cells relative to the embedded part
							st.events = append([]event(nil), st.events...)
							st.events[i].cell = strings.Replace(st.events[i].cell, fmt.Sprint(append(append([]int(nil), pre...), cell...)), fmt.Sprint(cell), 1)
						}
					}
					diff(c, st, &b, cell, old, res, fmt.Sprintf("%s%v", typ, cell))
				}
				delta, _, _ := c.effect(st, a.live)
				c.must(st, len(delta) == 0, "read-only", "Diff changes the counter")
			})
		})
	}
	r.addPkg("vlmonitoring", "LoadStore", func(c *Ctx) {
		m := c.monitor()
		f := monFunc{"LoadStore", c.in.fn(c.p, "LoadStore"), nil}
		m.call(f, func(st *State, a *monArgs, rv Val) {
			if len(a.snap) != 1 {
				undecided("LoadStore takes %d snapshots", len(a.snap))
			}
			old := st.residue(st.affOf(a.st.get(a.snap[0])))
			diff(m, st, a, []int{}, old, st.residue(st.affOf(rv)), "LoadStore")
		})
	})
	// readings
	reads := func(c *monCtx, st *State, a *monArgs, cell []int, v Val, what string) {
		e := st.residue(st.affOf(v))
		hit := false
		for _, x := range st.events {
			if x.op == "load" && x.obj == a.live && x.cell == fmt.Sprint(cell) && st.decideAff('=', st.residue(e.minus(x.res))) == 1 {
				hit = true
			}
		}
		c.must(st, hit, "reading", "%s gives %s, which is no value read from the counter", what, e)
		delta, _, _ := c.effect(st, a.live)
		c.must(st, len(delta) == 0, "read-only", "%s changes the counter", what)
	}
	for _, tm := range [][2]string{{"Counter", "Load"}, {"Counter", "Get"}, {"State", "Load"}, {"State", "Get"}, {"Max", "Get"}, {"Max", "Load"}} {
		tm := tm
		method(tm[0], tm[1], func(c *monCtx, f monFunc, n *types.Named) {
			c.call(f, func(st *State, a *monArgs, rv Val) {
				v := st.finVal(rv)
				if _, ok := v.(*StructV); ok {
					for _, cell := range cells(n) {
						reads(c, st, a, cell, getPath(v, cell), fmt.Sprintf("%s%v", f.name, cell))
					}
					return
				}
				cell := cells(n)[0]
				if tm[0] == "Max" {
					cell = maxState(c, n)
				}
				reads(c, st, a, cell, v, f.name)
			})
		})
	}
}

// oneCellPrefix is the path of the only part of type part in t.
func oneCellPrefix(t, part types.Type) []int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		undecided("%s has no part %s", t, part)
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), part) {
			return []int{i}
		}
	}
	undecided("%s has no part %s", t, part)
	return nil
}

func checkM04(r *Report) {
	p := r.prog.pkgs["vlmonitoring"]
	if p == nil {
		undecided("package vlmonitoring not found")
	}
	n := 0
	sc := p.Pkg.Scope()
	for _, arch := range []string{"386", "arm", "mips", "mipsle"} {
		sz := types.SizesFor("gc", arch)
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
				continue
			}
			var walk func(t types.Type, off int64, path string)
			walk = func(t types.Type, off int64, path string) {
				switch u := t.Underlying().(type) {
				case *types.Basic:
					if u.Kind() != types.Uint64 && u.Kind() != types.Int64 {
						return
					}
					n++
					r.ok("")
					if off%8 != 0 {
						r.fail(fmt.Sprintf("%s%s", name, path), "aligned", "the counter lies at offset %d on %s, which is not a multiple of 8", off, arch)
					}
				case *types.Struct:
					var fs []*types.Var
					for i := 0; i < u.NumFields(); i++ {
						fs = append(fs, u.Field(i))
					}
					offs := sz.Offsetsof(fs)
					for i, f := range fs {
						walk(f.Type(), off+offs[i], path+"."+f.Name())
					}
				case *types.Array:
					if u.Len() > 0 {
						es := sz.Sizeof(u.Elem())
						for i := int64(0); i < u.Len() && i < 8; i++ {
							walk(u.Elem(), off+i*es, fmt.Sprintf("%s[%d]", path, i))
						}
					}
				}
			}
			walk(tn.Type(), 0, "")
		}
	}
	if n == 0 {
		undecided("vlmonitoring has no counters")
	}
	r.scenarios += 4
}
