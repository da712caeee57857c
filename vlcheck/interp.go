package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Interp is an abstract interpreter of the SSA form. Branches that the abstract state cannot
// decide partition the state; loops whose exit it cannot decide are widened (loop.go).
type Interp struct {
	atoms   map[*Sym]*langAtom
	groups  map[*Blob][]*atomGroup
	prog    *ssa.Program
	fset    *token.FileSet
	modPath string

	base     map[int]*Obj
	globals  map[*ssa.Global]int
	globObj  map[int]string
	nobj     int
	nsym     int
	nblob    int
	blobs    map[string]*Blob
	symtab   map[string]*Sym
	valtab   map[string]Val
	info     map[*ssa.Function]*fnInfo
	ptrKeys  map[string]int
	byteSyms []*Sym

	// configuration
	widen    bool // widen loops with undecided exits instead of unrolling them
	unroll   int  // unrolling limit
	leafK    int  // iterations of small scalar loops analysed one by one before widening
	revMaps  bool // iterate maps backwards
	override map[string]func(in *Interp, st *State, args []Val, site ssa.Instruction) []Outcome
	maxSteps int
	t0       time.Time
	hashcons map[string]*Sym
	initMode bool

	// monitors
	onWrite  func(st *State, id int)
	onPlain  func(st *State, p *Ptr, t types.Type, how string, site ssa.Instruction) // loads and stores by instructions
	onMapSet func(st *State, id int, k, v Val)
	steps    int
	funcs    map[*ssa.Function]bool
	calls    map[ssa.Instruction]bool
	branches int
	loopRep  map[string]*loopReport
	scanFail map[*ssa.BasicBlock]int
	panics   map[string]int
	stack    []*ssa.Function
	curSite  ssa.Instruction
}

type loopReport struct {
	where, how string
	ok         bool
	n          int
}

type Outcome struct {
	st       *State
	ret      Val
	panicked bool
	pv       Val
	where    string
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*loopInfo
}
type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	leaf bool
	// for scanLoop
	scanned bool
	ind     map[*ssa.Phi]int64
	iters   []*ssa.Range
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.Defer
}
type item struct {
	blk, prev *ssa.BasicBlock
	pc        int
	env       []Val
	st        *State
	defers    []deferred
	cnt       map[*ssa.BasicBlock]int
	forked    map[*ssa.BasicBlock]bool
	forks     int
	atHead    bool // loop policy for this block already applied
}

func (it *item) clone() *item {
	n := *it
	n.env = append([]Val(nil), it.env...)
	n.st = it.st.clone()
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	if it.cnt != nil {
		n.cnt = map[*ssa.BasicBlock]int{}
		for k, v := range it.cnt {
			n.cnt[k] = v
		}
	}
	if it.forked != nil {
		n.forked = map[*ssa.BasicBlock]bool{}
		for k, v := range it.forked {
			n.forked[k] = v
		}
	}
	return &n
}

type goPanic struct {
	v     Val
	where string
}

func (in *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if fi := in.info[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				w := []*ssa.BasicBlock{b}
				for len(w) > 0 {
					x := w[len(w)-1]
					w = w[:len(w)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					w = append(w, x.Preds...)
				}
			}
		}
	}
	for _, l := range fi.loops {
		l.leaf = true
		for b := range l.body {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" {
						l.leaf = false
					}
				case *ssa.Store, *ssa.MapUpdate, *ssa.Next:
					l.leaf = false
				}
			}
		}
	}
	in.info[fn] = fi
	return fi
}

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
func (in *Interp) ipos(i ssa.Instruction) string {
	if i == nil {
		return "-"
	}
	p := i.Pos()
	if !p.IsValid() {
		if b := i.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					p = x.Pos()
				}
			}
		}
	}
	if !p.IsValid() {
		p = i.Parent().Pos()
	}
	return in.pos(p)
}

// exec runs fn from a state that the callee takes over.
func (in *Interp) exec(fn *ssa.Function, args, bind []Val, st *State) []Outcome {
	if fn.Blocks == nil {
		undecided("no body for %s", fn)
	}
	if len(in.stack) > 150 {
		undecided("call depth")
	}
	for i, n := len(in.stack)-1, 0; i >= 0; i-- {
		if in.stack[i] == fn {
			if n++; n > 12 {
				undecided("recursion of %s", fn)
			}
		}
	}
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	in.funcs[fn] = true
	fi := in.fnInfo(fn)
	env := make([]Val, fi.n)
	if len(args) != len(fn.Params) {
		undecided("arity of %s: %d args, %d params", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[fi.idx[p]] = bind[i]
	}
	outs, arr, ex := in.drive(fn, fi, []*item{{blk: fn.Blocks[0], env: env, st: st}}, nil)
	if len(arr)+len(ex) > 0 {
		undecided("loop structure of %s", fn)
	}
	return outs
}

// drive runs items until they return; with lp set, items reaching the loop head again are
// collected as arrivals and items leaving the loop as exits.
func (in *Interp) drive(fn *ssa.Function, fi *fnInfo, work []*item, lp *loopInfo) (outs []Outcome, arrivals, exits []*item) {
	goTo := func(it *item, to *ssa.BasicBlock) {
		it.prev, it.blk, it.pc, it.atHead, it.forks = it.blk, to, 0, false, 0
		if lp != nil {
			if to == lp.head {
				arrivals = append(arrivals, it)
				return
			}
			if !lp.body[to] {
				exits = append(exits, it)
				return
			}
		}
		work = append(work, it)
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for it != nil {
			if it.st.dead {
				break
			}
			if in.steps++; in.steps > in.maxSteps {
				undecided("analysis budget of %d steps exceeded in %s", in.maxSteps, fn)
			}
			if in.steps&255 == 0 {
				in.resources()
			}
			// loop policy
			if l := fi.loops[it.blk]; l != nil && it.pc == 0 && !it.atHead && !(lp != nil && l == lp) {
				it.atHead = true
				if o, ex, done := in.loopEntry(fn, fi, it, l); done {
					outs = append(outs, o...)
					for _, e := range ex {
						to := e.blk
						e.blk = e.prev
						goTo(e, to)
					}
					break
				}
			}
			if it.pc == 0 {
				in.phis(fi, it)
			}
			ins := it.blk.Instrs[it.pc]
			next, o, fork, pan := in.step(fn, fi, it, ins)
			if fork != nil {
				if it.forks++; it.forks > 400 {
					undecided("no progress in splitting on %s at %s", valStr(fork.cond), in.ipos(ins))
				}
				in.branches++
				if os.Getenv("VLCHECK_FORKS") != "" {
					fmt.Println("fork", in.ipos(ins), ins, valStr(fork.cond))
				}
				b := it.clone()
				it.st.assume(fork.cond, true)
				b.st.assume(fork.cond, false)
				if _, ok := ins.(*ssa.If); ok {
					in.markFork(fi, it)
					in.markFork(fi, b)
					it.st.note = append(it.st.note, in.ipos(ins)+"+")
					b.st.note = append(b.st.note, in.ipos(ins)+"-")
				}
				if !b.st.dead {
					work = append(work, b)
				}
				continue
			}
			if pan != nil {
				outs = append(outs, in.unwind(fn, fi, it, pan, &work)...)
				break
			}
			it.forks = 0
			outs = append(outs, o...)
			if next == nil {
				break
			}
			// several continuations (calls): all but the first go to the worklist
			for _, n := range next[1:] {
				if !n.st.dead {
					if n.blk != it.blk || n.pc == 0 {
						// not used: transitions are single
						undecided("internal: transition")
					}
					work = append(work, n)
				}
			}
			n := next[0]
			if n.pc < 0 { // transition requested: target in n.blk, source in n.prev
				to := n.blk
				n.blk = n.prev
				goTo(n, to)
				break
			}
			it = n
		}
	}
	return
}

func (in *Interp) markFork(fi *fnInfo, it *item) {
	for h, l := range fi.loops {
		if l.body[it.blk] {
			exit := false
			for _, s := range it.blk.Succs {
				if !l.body[s] {
					exit = true
				}
			}
			if exit {
				if it.forked == nil {
					it.forked = map[*ssa.BasicBlock]bool{}
				}
				it.forked[h] = true
			}
		}
	}
}

func (in *Interp) phis(fi *fnInfo, it *item) {
	var vals []Val
	n := 0
	for _, ins := range it.blk.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, in.phiVal(fi, it, p))
		n++
	}
	for i := 0; i < n; i++ {
		it.env[fi.idx[it.blk.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	it.pc = n
}
func (in *Interp) phiVal(fi *fnInfo, it *item, p *ssa.Phi) Val {
	for i, pr := range it.blk.Preds {
		if pr == it.prev {
			return in.val(fi, it, p.Edges[i])
		}
	}
	undecided("phi edge")
	return nil
}

func (in *Interp) val(fi *fnInfo, it *item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Function:
		return &Func{fn: x}
	case *ssa.Global:
		return &Ptr{obj: in.globalObj(x)}
	case *ssa.Builtin:
		return &Func{ext: "builtin:" + x.Name()}
	}
	r := it.env[fi.idx[v]]
	if r == nil {
		undecided("value %s of %s not computed", v.Name(), v.Parent())
	}
	return r
}

func (in *Interp) globalObj(g *ssa.Global) int {
	if id, ok := in.globals[g]; ok {
		return id
	}
	in.nobj++
	id := in.nobj
	in.globals[g] = id
	et := g.Type().(*types.Pointer).Elem()
	name := g.RelString(nil)
	in.globObj[id] = name
	v := Val(nil)
	if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), in.modPath) || in.initMode && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), in.modPath) {
		v = zero(et)
	} else {
		v = in.extGlobal(name, et)
	}
	in.base[id] = &Obj{v: v, t: et, alloc: name}
	return id
}

// step executes one instruction. It returns the continuation items, outcomes, a split request or
// a panic of the analysed program.
func (in *Interp) step(fn *ssa.Function, fi *fnInfo, it *item, ins ssa.Instruction) (next []*item, outs []Outcome, fork *forkReq, pan *goPanic) {
	depth := len(in.stack)
	defer func() {
		if r := recover(); r != nil {
			in.stack = in.stack[:depth]
			switch x := r.(type) {
			case forkReq:
				next, outs, fork = nil, nil, &x
			case goPanic:
				next, outs, pan = nil, nil, &x
			case undecidedErr:
				if !strings.Contains(x.msg, " @ ") {
					x.msg += " @ " + in.ipos(ins) + " in " + fn.String()
				}
				panic(x)
			default:
				panic(r)
			}
		}
	}()
	st := it.st
	in.curSite = ins
	set := func(v Val) {
		it.env[fi.idx[ins.(ssa.Value)]] = v
		it.pc++
		next = []*item{it}
	}
	V := func(v ssa.Value) Val { return in.val(fi, it, v) }
	jump := func(to *ssa.BasicBlock) {
		it.prev, it.blk, it.pc = it.blk, to, -1
		next = []*item{it}
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
		it.pc++
		next = []*item{it}
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		set(&Ptr{obj: st.alloc(zero(et), et, in.ipos(x)+" "+x.Comment)})
	case *ssa.BinOp:
		set(in.binop(st, x, V(x.X), V(x.Y)))
	case *ssa.UnOp:
		v := V(x.X)
		switch x.Op {
		case token.MUL:
			set(in.load(st, v, x.Type(), x))
		case token.NOT:
			set(st.not(v))
		case token.SUB:
			set(st.numOp(token.SUB, cst(0), v, x.Type()))
		case token.XOR:
			v = st.finVal(v)
			if f, ok := v.(*Fin); ok {
				set(st.finVal(mapFin(f, func(v Val) Val { return st.complement(v, x.Type()) })))
			} else {
				set(st.complement(v, x.Type()))
			}
		default:
			undecided("operator %s", x.Op)
		}
	case *ssa.ChangeType:
		set(V(x.X))
	case *ssa.ChangeInterface:
		set(V(x.X))
	case *ssa.Convert:
		set(in.convert(st, V(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(in.convert(st, V(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		set(&Iface{x.X.Type(), V(x.X)})
	case *ssa.Extract:
		t, ok := V(x.Tuple).(Tuple)
		if !ok {
			undecided("extract from %s", valStr(V(x.Tuple)))
		}
		set(t[x.Index])
	case *ssa.Field:
		set(in.field(st, V(x.X), x.Field, x.Type()))
	case *ssa.FieldAddr:
		set(in.fieldAddr(st, V(x.X), x.Field, x.X.Type(), x))
	case *ssa.IndexAddr:
		set(in.indexAddr(st, V(x.X), V(x.Index), x.X.Type(), x))
	case *ssa.Index:
		set(in.index(st, V(x.X), V(x.Index), x.X.Type(), x))
	case *ssa.Lookup:
		set(in.lookup(st, V(x.X), V(x.Index), x))
	case *ssa.Slice:
		set(in.slice(st, x, V))
	case *ssa.MakeSlice:
		set(in.makeSlice(st, x.Type(), V(x.Len), V(x.Cap), x))
	case *ssa.MakeMap:
		set(&MapRef{st.alloc(in.newMap(nil, false), x.Type(), in.ipos(x))})
	case *ssa.MakeClosure:
		f := &Func{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, V(b))
		}
		set(f)
	case *ssa.MapUpdate:
		in.mapUpdate(st, V(x.Map), V(x.Key), V(x.Value), x)
		it.pc++
		next = []*item{it}
	case *ssa.Range:
		set(in.rangeOver(st, V(x.X), x))
	case *ssa.Next:
		tu, adv := in.next(st, V(x.Iter), x)
		it.env[fi.idx[x.Iter.(ssa.Value)]] = adv
		set(tu)
	case *ssa.TypeAssert:
		set(in.typeAssert(st, V(x.X), x))
	case *ssa.SliceToArrayPointer:
		undecided("slice to array conversion")
	case *ssa.Store:
		in.store(st, V(x.Addr), V(x.Val), x)
		it.pc++
		next = []*item{it}
	case *ssa.Jump:
		jump(it.blk.Succs[0])
	case *ssa.If:
		if st.must(V(x.Cond)) {
			jump(it.blk.Succs[0])
		} else {
			jump(it.blk.Succs[1])
		}
	case *ssa.Return:
		var r Val
		switch len(x.Results) {
		case 0:
			r = Tuple{}
		case 1:
			r = V(x.Results[0])
		default:
			var t Tuple
			for _, e := range x.Results {
				t = append(t, V(e))
			}
			r = t
		}
		return nil, []Outcome{{st: st, ret: r, where: in.ipos(x)}}, nil, nil
	case *ssa.Panic:
		panic(goPanic{V(x.X), in.ipos(x)})
	case *ssa.Call:
		args, f := in.callee(st, &x.Call, V)
		os := in.call(st, f, args, x)
		for i, o := range os {
			n := it
			if i < len(os)-1 {
				n = &item{}
				*n = *it
				n.env = append([]Val(nil), it.env...)
				n.defers = it.defers[:len(it.defers):len(it.defers)]
				n.cnt, n.forked = copyCnt(it.cnt), copyForked(it.forked)
			}
			n.st = o.st
			if o.panicked {
				// handled after the other outcomes: unwind needs its own item
				w := []*item{}
				outs = append(outs, in.unwind(fn, fi, n, &goPanic{o.pv, o.where}, &w)...)
				for _, m := range w {
					next = append(next, m)
				}
				continue
			}
			n.env[fi.idx[x]] = o.ret
			n.pc = it.pc
			next = append(next, n)
		}
		for _, n := range next {
			n.pc++
			n.forks = 0
		}
		// it was reused for the last outcome; keep its pc consistent
		return next, outs, nil, nil
	case *ssa.Defer:
		args, f := in.callee(st, &x.Call, V)
		it.defers = append(it.defers, deferred{f, args, x})
		it.pc++
		next = []*item{it}
	case *ssa.RunDefers:
		items := []*item{it}
		for len(items) > 0 {
			c := items[len(items)-1]
			items = items[:len(items)-1]
			if len(c.defers) == 0 {
				c.pc++
				next = append(next, c)
				continue
			}
			d := c.defers[len(c.defers)-1]
			c.defers = c.defers[: len(c.defers)-1 : len(c.defers)-1]
			os := in.call(c.st, d.fn, d.args, d.call)
			for i, o := range os {
				n := c
				if i < len(os)-1 {
					n = &item{}
					*n = *c
					n.env = append([]Val(nil), c.env...)
				}
				n.st = o.st
				if o.panicked {
					w := []*item{}
					outs = append(outs, in.unwind(fn, fi, n, &goPanic{o.pv, o.where}, &w)...)
					continue
				}
				items = append(items, n)
			}
		}
	case *ssa.Go:
		undecided("goroutine started")
	default:
		undecided("instruction %T", ins)
	}
	return
}

func copyCnt(m map[*ssa.BasicBlock]int) map[*ssa.BasicBlock]int {
	if m == nil {
		return nil
	}
	n := map[*ssa.BasicBlock]int{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
func copyForked(m map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	if m == nil {
		return nil
	}
	n := map[*ssa.BasicBlock]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// unwind runs the deferred calls of a panicking frame. Frames that recover return through the
// recover block.
func (in *Interp) unwind(fn *ssa.Function, fi *fnInfo, it *item, p *goPanic, work *[]*item) (outs []Outcome) {
	in.panics[p.where]++
	if len(it.defers) == 0 {
		return []Outcome{{st: it.st, panicked: true, pv: p.v, where: p.where}}
	}
	type w struct {
		it *item
		p  *goPanic
	}
	it = it.clone()
	it.st.panicky, it.st.panicV = true, p.v
	if it.st.panicV == nil {
		it.st.panicV = &Iface{types.Typ[types.String], &Str{constSeq("runtime error")}}
	}
	ws := []w{{it, p}}
	for len(ws) > 0 {
		c := ws[len(ws)-1]
		ws = ws[:len(ws)-1]
		if len(c.it.defers) == 0 {
			if c.it.st.panicky {
				outs = append(outs, Outcome{st: c.it.st, panicked: true, pv: c.p.v, where: c.p.where})
				continue
			}
			rb := fn.Recover
			if rb == nil {
				var r Val = Tuple{}
				if res := fn.Signature.Results(); res.Len() == 1 {
					r = zero(res.At(0).Type())
				} else if res.Len() > 1 {
					r = zero(res)
				}
				outs = append(outs, Outcome{st: c.it.st, ret: r, where: "recovered"})
				continue
			}
			// the recover block is straight-line
			c.it.blk, c.it.pc, c.it.prev = rb, 0, nil
			o, _, _ := in.drive(fn, fi, []*item{c.it}, nil)
			for i := range o {
				o[i].where = "recovered panic of " + c.p.where
			}
			outs = append(outs, o...)
			continue
		}
		d := c.it.defers[len(c.it.defers)-1]
		c.it.defers = c.it.defers[: len(c.it.defers)-1 : len(c.it.defers)-1]
		os := in.call(c.it.st, d.fn, d.args, d.call)
		for i, o := range os {
			n := c.it
			if i < len(os)-1 {
				n = &item{}
				*n = *c.it
				n.env = append([]Val(nil), c.it.env...)
			}
			n.st = o.st
			if o.panicked {
				n.st.panicky, n.st.panicV = true, o.pv
				ws = append(ws, w{n, &goPanic{o.pv, o.where}})
				continue
			}
			ws = append(ws, w{n, c.p})
		}
	}
	return
}

// ---- calls --------------------------------------------------------------------------------------

func (in *Interp) callee(st *State, c *ssa.CallCommon, V func(ssa.Value) Val) ([]Val, Val) {
	var args []Val
	if c.IsInvoke() {
		r := st.finVal(V(c.Value))
		if _, ok := r.(*Fin); ok {
			r = st.pick(r)
		}
		i, ok := r.(*Iface)
		if !ok {
			o, ok := r.(*Opaque)
			if !ok {
				undecided("method call on %s", valStr(r))
			}
			for _, a := range c.Args {
				args = append(args, V(a))
			}
			return args, &Func{ext: fmt.Sprintf("opaque:%d:%s", o.id, c.Method.FullName())}
		}
		if i.t == nil {
			panic(goPanic{nil, "nil interface method call at " + in.pos(c.Pos())})
		}
		m := in.prog.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			undecided("method %s of %s", c.Method.Name(), i.t)
		}
		args = append(args, i.v)
		for _, a := range c.Args {
			args = append(args, V(a))
		}
		return args, &Func{fn: m}
	}
	for _, a := range c.Args {
		args = append(args, V(a))
	}
	f := st.finVal(V(c.Value))
	if _, ok := f.(*Fin); ok {
		f = st.pick(f)
	}
	return args, f
}

func (in *Interp) isModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), in.modPath)
	}
	// wrappers and bound methods
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), in.modPath)
	}
	return fn.Synthetic != ""
}

func (in *Interp) call(st *State, f Val, args []Val, site ssa.Instruction) []Outcome {
	fv, ok := f.(*Func)
	if !ok {
		if o, ok := f.(*Opaque); ok {
			undecided("call of unknown function %s", valStr(o))
		}
		undecided("call of %s", valStr(f))
	}
	if site != nil {
		in.calls[site] = true
	}
	if fv.fn == nil {
		if fv.ext == "" {
			panic(goPanic{nil, "nil function call at " + in.ipos(site)})
		}
		return in.external(st, fv.ext, nil, args, site)
	}
	name := fv.fn.String()
	if o := in.override[name]; o != nil {
		return o(in, st, args, site)
	}
	if fv.fn.Name() == "init" && fv.fn.Synthetic != "" && !in.isModule(fv.fn) {
		return one(st, Tuple{})
	}
	if in.isModule(fv.fn) {
		outs := in.exec(fv.fn, args, fv.bind, st)
		sig := fv.fn.Signature
		if n := sig.Results().Len(); n > 0 && sig.Params().Len() > 0 && types.Identical(sig.Results().At(n-1).Type(), types.Universe.Lookup("error").Type()) && fv.fn.Synthetic == "" {
			for i := range outs {
				if outs[i].panicked {
					continue
				}
				r := outs[i].ret
				if t, ok := r.(Tuple); ok {
					r = t[len(t)-1]
				}
				if e, ok := r.(*Iface); ok && e.t != nil {
					s := outs[i].st
					s.failed = append(s.failed, fmt.Sprintf("%s (%s)", shortFn(fv.fn), outs[i].where))
				}
			}
		}
		return outs
	}
	return in.external(st, name, fv, args, site)
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return strings.TrimSuffix(s, ")")
}

// ---- memory -------------------------------------------------------------------------------------

func (in *Interp) ptr(st *State, v Val, t types.Type, site ssa.Instruction) *Ptr {
	v = st.finVal(v)
	if _, ok := v.(*Fin); ok {
		v = st.pick(v)
	}
	switch p := v.(type) {
	case *Ptr:
		if p.obj == 0 {
			panic(goPanic{nil, "nil pointer dereference at " + in.ipos(site)})
		}
		return p
	case *Opaque:
		if st.must(st.opqEq(p, &Ptr{})) {
			panic(goPanic{nil, "nil pointer dereference at " + in.ipos(site)})
		}
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			break
		}
		key := fmt.Sprintf("deref|%d", p.id)
		id, ok := in.ptrKeys[key]
		if !ok {
			in.nobj++
			id = in.nobj
			in.ptrKeys[key] = id
			tmp := newState(in)
			v := in.fresh(tmp, pt.Elem(), fmt.Sprintf("*opq%d", p.id))
			for k, o := range tmp.heap {
				in.base[k] = o
			}
			in.base[id] = &Obj{v: v, t: pt.Elem(), alloc: "opaque"}
		}
		return &Ptr{obj: id}
	}
	undecided("pointer %s", valStr(v))
	return nil
}

// keyed gives the unknown value of a type named by key, the same in every state.
func (in *Interp) keyed(key string, t types.Type) Val {
	if v, ok := in.valtab[key]; ok {
		return v
	}
	tmp := newState(in)
	v := in.fresh(tmp, t, key)
	for k, o := range tmp.heap {
		in.base[k] = o
	}
	in.valtab[key] = v
	return v
}

func (in *Interp) load(st *State, a Val, t types.Type, site ssa.Instruction) Val {
	p := in.ptr(st, a, site.(*ssa.UnOp).X.Type(), site)
	if in.onPlain != nil {
		in.onPlain(st, p, t, "read", site)
	}
	return in.loadPtr(st, p, t)
}
func (in *Interp) loadPtr(st *State, p *Ptr, t types.Type) Val {
	v := st.get(p.obj)
	for _, f := range p.path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[f]
		case *ArrV:
			v = x.e[f]
		case *Opaque:
			undecided("field of unknown value")
		default:
			undecided("path through %s", valStr(v))
		}
	}
	if p.idx != nil {
		switch x := v.(type) {
		case *Bytes:
			return st.byteAt(x.q, p.idx)
		case *OpaqueArr:
			return in.keyed(fmt.Sprintf("elem|%d|%s", x.id, st.norm(p.idx)), x.elem)
		case *Opaque:
			return in.fresh(st, t, "elem")
		default:
			undecided("element of %s", valStr(v))
		}
	}
	return st.finVal(v)
}
func setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	switch x := v.(type) {
	case *StructV:
		c := &StructV{append([]Val(nil), x.f...)}
		c.f[path[0]] = setPath(x.f[path[0]], path[1:], n)
		return c
	case *ArrV:
		c := &ArrV{append([]Val(nil), x.e...)}
		c.e[path[0]] = setPath(x.e[path[0]], path[1:], n)
		return c
	}
	undecided("store through %s", valStr(v))
	return nil
}
func getPath(v Val, path []int) Val {
	for _, f := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[f]
		case *ArrV:
			v = x.e[f]
		default:
			undecided("path through %s", valStr(v))
		}
	}
	return v
}
func (in *Interp) store(st *State, a, v Val, site *ssa.Store) {
	p := in.ptr(st, a, site.Addr.Type(), site)
	if in.onPlain != nil {
		in.onPlain(st, p, site.Val.Type(), "written", site)
	}
	in.storePtr(st, p, v)
}

// spread turns a table of structures into a structure of tables.
func (st *State) spread(v Val) Val {
	v = st.finVal(v)
	x, ok := v.(*Fin)
	if !ok {
		return v
	}
	n := -1
	for _, e := range x.tab {
		if e == nil {
			continue
		}
		s, ok := e.(*StructV)
		if !ok {
			return v
		}
		n = len(s.f)
	}
	if n < 0 {
		return v
	}
	r := &StructV{}
	for i := 0; i < n; i++ {
		i := i
		r.f = append(r.f, st.spread(mapFin(x, func(e Val) Val { return e.(*StructV).f[i] })))
	}
	return r
}
func (in *Interp) storePtr(st *State, p *Ptr, v Val) {
	if f, ok := v.(*Fin); ok {
		v = st.spread(f)
	}
	if p.idx != nil {
		root := getPath(st.get(p.obj), p.path)
		switch x := root.(type) {
		case *Bytes:
			v = st.finVal(v)
			if _, ok := v.(*Cond); ok {
				v = &Num{st.affOf(v)}
			}
			if len(p.path) == 0 {
				st.write(p.obj, p.idx, &Seq{[]Piece{{k: pNum, v: v, w: 1}}})
				return
			}
			pre, rest := st.splitAt(x.q, p.idx)
			_, post := st.splitAt(rest, K(1))
			st.set(p.obj, setPath(st.get(p.obj), p.path, &Bytes{st.normSeq(cat(pre, &Seq{[]Piece{{k: pNum, v: v, w: 1}}}, post))}))
			return
		case *OpaqueArr:
			st.set(p.obj, in.opqArr(x.elem))
			return
		}
		undecided("store to element of %s", valStr(root))
	}
	st.set(p.obj, setPath(st.get(p.obj), p.path, v))
}

func (in *Interp) field(st *State, v Val, f int, t types.Type) Val {
	v = st.finVal(v)
	if x, ok := v.(*Fin); ok {
		ok := true
		for _, e := range x.tab {
			if e != nil {
				if _, isS := e.(*StructV); !isS {
					ok = false
				}
			}
		}
		if ok {
			return st.finVal(mapFin(x, func(e Val) Val { return e.(*StructV).f[f] }))
		}
		v = st.pick(v)
	}
	if s, ok := v.(*StructV); ok {
		return s.f[f]
	}
	if o, ok := v.(*Opaque); ok {
		return in.keyed(fmt.Sprintf("field|%d|%d", o.id, f), t)
	}
	undecided("field of %s", valStr(v))
	return nil
}
func (in *Interp) fieldAddr(st *State, v Val, f int, t types.Type, site ssa.Instruction) Val {
	p := in.ptr(st, v, t, site)
	if p.idx != nil {
		undecided("field address inside unknown array")
	}
	return &Ptr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], f)}
}

func (in *Interp) checkIndex(st *State, i, n *Aff, site ssa.Instruction) {
	if !st.mustGE(i, K(0)) || !st.mustGE(n, i.addc(1)) {
		panic(goPanic{nil, "index out of range at " + in.ipos(site)})
	}
}

// constIdx splits until an index is a constant.
func (st *State) constIdx(i *Aff, n int) int {
	i = st.norm(i)
	for k := 0; k < n; k++ {
		if i.isConst() {
			break
		}
		if st.mustEQ(i, K(int64(k))) {
			return k
		}
	}
	if !i.isConst() {
		undecided("index %s", i)
	}
	return int(i.c)
}

func (in *Interp) indexAddr(st *State, x, iv Val, t types.Type, site ssa.Instruction) Val {
	i := st.affOf(iv)
	x = st.finVal(x)
	if _, ok := x.(*Fin); ok {
		x = st.pick(x)
	}
	if o, ok := x.(*Opaque); ok {
		if _, isSl := under(t).(*types.Slice); isSl {
			x = in.keyed(fmt.Sprintf("opqslice|%d", o.id), o.t)
		}
	}
	switch s := x.(type) {
	case *Slice:
		in.checkIndex(st, i, s.len, site)
		e := st.norm(s.off.plus(i))
		if a, ok := st.get(s.obj).(*ArrV); ok {
			return &Ptr{obj: s.obj, path: []int{st.constIdx(e, len(a.e))}}
		}
		return &Ptr{obj: s.obj, idx: e}
	}
	p := in.ptr(st, x, t, site)
	at, ok := under(under(t).(*types.Pointer).Elem()).(*types.Array)
	if !ok {
		undecided("index of %s", t)
	}
	in.checkIndex(st, i, K(at.Len()), site)
	if isByte(at.Elem()) {
		return &Ptr{obj: p.obj, path: p.path, idx: i}
	}
	return &Ptr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], st.constIdx(i, int(at.Len())))}
}
func (in *Interp) index(st *State, x, iv Val, t types.Type, site ssa.Instruction) Val {
	i := st.affOf(iv)
	x = st.finVal(x)
	switch s := x.(type) {
	case *Str:
		in.checkIndex(st, i, s.q.size(), site)
		return st.byteAt(s.q, i)
	case *Bytes:
		in.checkIndex(st, i, s.q.size(), site)
		return st.byteAt(s.q, i)
	case *ArrV:
		in.checkIndex(st, i, K(int64(len(s.e))), site)
		if i = st.norm(i); !i.isConst() {
			if sy, k := soleSym(i); sy != nil && k == 1 {
				if d := st.mkDom(sy); d != nil {
					f := &Fin{s: sy, base: d.base, tab: make([]Val, 256)}
					d.each(func(v int64) {
						if j := v + i.c; j >= 0 && j < int64(len(s.e)) {
							f.tab[v-d.base] = s.e[j]
						}
					})
					return st.finVal(f)
				}
			}
		}
		return s.e[st.constIdx(i, len(s.e))]
	case *Opaque:
		return in.keyed(fmt.Sprintf("idx|%d|%s", s.id, i), site.(ssa.Value).Type())
	}
	undecided("index of %s", valStr(x))
	return nil
}

func (in *Interp) slice(st *State, x *ssa.Slice, V func(ssa.Value) Val) Val {
	b := st.finVal(V(x.X))
	if _, ok := b.(*Fin); ok {
		b = st.pick(b)
	}
	get := func(v ssa.Value) *Aff {
		if v == nil {
			return nil
		}
		return st.affOf(V(v))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = K(0)
	}
	bad := func() { panic(goPanic{nil, "slice bounds out of range at " + in.ipos(x)}) }
	if o, ok := b.(*Opaque); ok {
		b = in.keyed(fmt.Sprintf("opqslice|%d", o.id), o.t)
	}
	switch s := b.(type) {
	case *Str:
		n := s.q.size()
		if hi == nil {
			hi = n
		}
		if !st.mustGE(lo, K(0)) || !st.mustGE(hi, lo) || !st.mustGE(n, hi) {
			bad()
		}
		return &Str{st.sub(s.q, lo, hi.minus(lo))}
	case *Slice:
		if hi == nil {
			hi = s.len
		}
		c := s.cap
		if mx != nil {
			if !st.mustGE(s.cap, mx) || !st.mustGE(mx, hi) {
				bad()
			}
			c = mx
		}
		if !st.mustGE(lo, K(0)) || !st.mustGE(hi, lo) || !st.mustGE(c, hi) {
			bad()
		}
		return &Slice{s.obj, st.norm(s.off.plus(lo)), st.norm(hi.minus(lo)), st.norm(c.minus(lo))}
	}
	p := in.ptr(st, b, x.X.Type(), x)
	at, ok := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
	if !ok || len(p.path) > 0 {
		undecided("slice of %s", x.X.Type())
	}
	n := K(at.Len())
	if hi == nil {
		hi = n
	}
	c := n
	if mx != nil {
		c = mx
	}
	if !st.mustGE(lo, K(0)) || !st.mustGE(hi, lo) || !st.mustGE(c, hi) || !st.mustGE(n, c) {
		bad()
	}
	return &Slice{p.obj, lo, st.norm(hi.minus(lo)), st.norm(c.minus(lo))}
}

func (in *Interp) makeSlice(st *State, t types.Type, ln, cp Val, site ssa.Instruction) Val {
	n, c := st.affOf(ln), st.affOf(cp)
	if !st.mustGE(n, K(0)) || !st.mustGE(c, n) {
		panic(goPanic{nil, "makeslice: len out of range at " + in.ipos(site)})
	}
	et := under(t).(*types.Slice).Elem()
	if isByte(et) {
		id := st.alloc(&Bytes{&Seq{[]Piece{{k: pZero, n: c}}}}, et, in.ipos(site))
		return &Slice{id, K(0), n, c}
	}
	c = st.norm(c)
	if lo, hi := st.bounds(c); !c.isConst() && hi <= 8 {
		lo = max(lo, 0)
		for ; lo < hi && !st.mustEQ(c, K(lo)); lo++ {
		}
		c = K(lo)
		n = st.norm(n)
	}
	if c.isConst() && c.c <= 4096 {
		a := &ArrV{}
		for i := int64(0); i < c.c; i++ {
			a.e = append(a.e, zero(et))
		}
		return &Slice{st.alloc(a, et, in.ipos(site)), K(0), n, c}
	}
	return &Slice{st.alloc(in.opqArr(et), et, in.ipos(site)), K(0), n, c}
}

// ---- maps ---------------------------------------------------------------------------------------

// keyEq compares map keys.
func (st *State) keyEq(a, b Val) Val { return st.equal(a, b) }

func (in *Interp) lookup(st *State, m, k Val, x *ssa.Lookup) Val {
	m = st.finVal(m)
	if isString(x.X.Type()) {
		i := st.affOf(k)
		s := m.(*Str)
		in.checkIndex(st, i, s.q.size(), x)
		return st.byteAt(s.q, i)
	}
	mt := under(x.X.Type()).(*types.Map)
	wrap := func(v Val, ok Val) Val {
		if x.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	if f, ok := m.(*Fin); ok {
		// table of maps: one lookup per symbol value when the key is a constant
		if _, isC := isConstNum(st.finVal(k)); isC {
			ks := st.finVal(k)
			liftOK := true
			vals := mapFin(f, func(e Val) Val {
				v, okv, exact := in.lookupConst(st, e, ks, mt)
				if !exact {
					liftOK = false
				}
				return Tuple{v, okv}
			})
			if liftOK {
				v := st.finVal(mapFin(vals, func(e Val) Val { return e.(Tuple)[0] }))
				o := st.finVal(mapFin(vals, func(e Val) Val { return e.(Tuple)[1] }))
				return wrap(v, o)
			}
		}
		m = st.pick(m)
	}
	if o, ok := m.(*Opaque); ok {
		m = in.keyed(fmt.Sprintf("opqmap|%d", o.id), o.t)
	}
	mr, ok := m.(*MapRef)
	if !ok {
		undecided("lookup in %s", valStr(m))
	}
	if mr.obj == 0 {
		return wrap(zero(mt.Elem()), cst(0))
	}
	mv := st.get(mr.obj).(*MapV)
	k = st.finVal(k)
	// exact table for a small-domain key over constant keys
	if _, isC := isConstNum(k); !isC && !mv.open {
		if f := st.asFin(k); f != nil {
			allConst := true
			for _, e := range mv.ents {
				if _, ok := isConstNum(e.k); !ok {
					allConst = false
				}
			}
			if allConst {
				z := zero(mt.Elem())
				r := mapFin(f, func(kv Val) Val {
					for _, e := range mv.ents {
						if sameVal(e.k, kv) {
							return Tuple{e.v, cst(1)}
						}
					}
					return Tuple{z, cst(0)}
				})
				v := st.finVal(mapFin(r, func(e Val) Val { return e.(Tuple)[0] }))
				o := st.finVal(mapFin(r, func(e Val) Val { return e.(Tuple)[1] }))
				return wrap(v, o)
			}
		}
	}
	for _, e := range mv.ents {
		if st.must(st.keyEq(e.k, k)) {
			return wrap(e.v, cst(1))
		}
	}
	if mv.open {
		key := fmt.Sprintf("map|%d|%d|%s", mr.obj, mv.id, valStr(k))
		if st.must(in.boolKey(key, "has")) {
			return wrap(in.keyed("val|"+key, mt.Elem()), cst(1))
		}
	}
	return wrap(zero(mt.Elem()), cst(0))
}
func (in *Interp) lookupConst(st *State, m, k Val, mt *types.Map) (Val, Val, bool) {
	mr, ok := m.(*MapRef)
	if !ok {
		return nil, nil, false
	}
	if mr.obj == 0 {
		return zero(mt.Elem()), cst(0), true
	}
	mv := st.get(mr.obj).(*MapV)
	if mv.open {
		return nil, nil, false
	}
	for _, e := range mv.ents {
		if _, ok := isConstNum(e.k); !ok {
			return nil, nil, false
		}
		if sameVal(e.k, k) {
			return e.v, cst(1), true
		}
	}
	return zero(mt.Elem()), cst(0), true
}

func (in *Interp) mapUpdate(st *State, m, k, v Val, site ssa.Instruction) {
	m = st.finVal(m)
	if _, ok := m.(*Fin); ok {
		m = st.pick(m)
	}
	if o, ok := m.(*Opaque); ok {
		m = in.keyed(fmt.Sprintf("opqmap|%d", o.id), o.t)
	}
	mr, ok := m.(*MapRef)
	if !ok {
		undecided("update of %s", valStr(m))
	}
	if mr.obj == 0 {
		panic(goPanic{nil, "assignment to entry in nil map at " + in.ipos(site)})
	}
	mv := st.get(mr.obj).(*MapV)
	k = st.finVal(k)
	n := in.newMap(nil, mv.open)
	found := false
	if _, isC := isConstNum(k); !isC && !mv.open {
		if f, ok := k.(*Fin); ok {
			k = st.pick(f)
		}
	}
	if mv.open {
		for _, e := range mv.ents {
			if st.decide(st.keyEq(e.k, k)) == -1 {
				st.set(mr.obj, in.newMap(nil, true))
				if in.onMapSet != nil {
					in.onMapSet(st, mr.obj, k, v)
				}
				return
			}
		}
	}
	for _, e := range mv.ents {
		if !found && st.must(st.keyEq(e.k, k)) {
			n.ents = append(n.ents, mapEnt{e.k, v})
			found = true
			continue
		}
		n.ents = append(n.ents, e)
	}
	if !found {
		n.ents = append(n.ents, mapEnt{k, v})
	}
	st.set(mr.obj, n)
	if in.onMapSet != nil {
		in.onMapSet(st, mr.obj, k, v)
	}
}
func (in *Interp) mapDelete(st *State, m, k Val) {
	mr, ok := st.finVal(m).(*MapRef)
	if !ok {
		undecided("delete from %s", valStr(m))
	}
	if mr.obj == 0 {
		return
	}
	mv := st.get(mr.obj).(*MapV)
	n := in.newMap(nil, mv.open)
	if mv.open {
		n = in.newMap(nil, true)
	} else {
		for _, e := range mv.ents {
			if !st.must(st.keyEq(e.k, k)) {
				n.ents = append(n.ents, e)
			}
		}
	}
	st.set(mr.obj, n)
}

func (in *Interp) rangeOver(st *State, v Val, x *ssa.Range) Val {
	v = st.finVal(v)
	if o, ok := v.(*Opaque); ok {
		v = in.keyed(fmt.Sprintf("opqmap|%d", o.id), o.t)
	}
	switch m := v.(type) {
	case *MapRef:
		if m.obj == 0 {
			return &Iter{}
		}
		mv := st.get(m.obj).(*MapV)
		e := append([]mapEnt(nil), mv.ents...)
		if in.revMaps {
			for i, j := 0, len(e)-1; i < j; i, j = i+1, j-1 {
				e[i], e[j] = e[j], e[i]
			}
		}
		in.nsym++
		return &Iter{ents: e, open: mv.open, id: in.nsym}
	case *Str:
		return &Iter{str: m.q, at: K(0)}
	}
	undecided("range over %s", valStr(v))
	return nil
}
func (in *Interp) next(st *State, v Val, x *ssa.Next) (Tuple, Val) {
	it := v.(*Iter)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		return in.nextRune(st, it)
	}
	zt := func(i int) Val {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return cst(0)
		}
		return zero(tt.At(i).Type())
	}
	if it.pos < len(it.ents) {
		e := it.ents[it.pos]
		return Tuple{cst(1), e.k, e.v}, &Iter{ents: it.ents, pos: it.pos + 1, open: it.open, id: it.id}
	}
	if it.open {
		// any number of further entries
		b := in.boolKey(fmt.Sprintf("next|%d|%d", it.id, it.pos), "more")
		if st.must(b) {
			k, vv := Val(cst(0)), Val(cst(0))
			mt := under(x.Iter.(*ssa.Range).X.Type()).(*types.Map)
			k = in.fresh(st, mt.Key(), "key")
			vv = in.fresh(st, mt.Elem(), "mapval")
			in.nsym++
			return Tuple{cst(1), k, vv}, &Iter{ents: it.ents, pos: it.pos, open: true, id: in.nsym}
		}
	}
	return Tuple{cst(0), zt(1), zt(2)}, it
}

// nextRune steps through a string: known bytes, or an unknown rune in a pass of scanLoop.
func (in *Interp) nextRune(st *State, it *Iter) (Tuple, Val) {
	if c := it.scan; c != nil {
		if c.used {
			undecided("second step of a string iterator")
		}
		if c.end {
			return Tuple{cst(0), cst(0), cst(0)}, it
		}
		u := *c
		u.used = true
		return Tuple{cst(1), &Num{st.norm(it.at.plus(S(c.k)))}, &Num{st.norm(S(c.r))}}, &Iter{str: it.str, at: it.at, scan: &u}
	}
	if !st.mustGE(it.str.size(), it.at.addc(1)) {
		return Tuple{cst(0), cst(0), cst(0)}, it
	}
	rest := st.normSeq(st.sub(it.str, it.at, it.str.size().minus(it.at)))
	if p := rest.p[0]; p.k == pConst {
		r, n := utf8.DecodeRune(p.b)
		if utf8.FullRune(p.b) || len(rest.p) == 1 {
			return Tuple{cst(1), &Num{st.norm(it.at)}, cst(int64(r))}, &Iter{str: it.str, at: st.norm(it.at.addc(int64(n)))}
		}
	}
	undecided("rune iteration over %s", rest)
	return nil, nil
}

// ---- interfaces ---------------------------------------------------------------------------------

func (in *Interp) typeAssert(st *State, v Val, x *ssa.TypeAssert) Val {
	v = st.finVal(v)
	if _, ok := v.(*Fin); ok {
		v = st.pick(v)
	}
	fail := func() Val {
		if x.CommaOk {
			return Tuple{zero(x.AssertedType), cst(0)}
		}
		panic(goPanic{nil, "interface conversion at " + in.ipos(x)})
	}
	okv := func(r Val) Val {
		if x.CommaOk {
			return Tuple{r, cst(1)}
		}
		return r
	}
	_, toIface := under(x.AssertedType).(*types.Interface)
	switch i := v.(type) {
	case *Iface:
		if i.t == nil {
			return fail()
		}
		if toIface {
			if types.Implements(i.t, under(x.AssertedType).(*types.Interface)) {
				return okv(i)
			}
			return fail()
		}
		if types.Identical(i.t, x.AssertedType) {
			return okv(i.v)
		}
		return fail()
	case *Opaque:
		key := fmt.Sprintf("type|%d|%s", i.id, types.TypeString(x.AssertedType, nil))
		// at most one concrete type: earlier positive answers exclude others
		if !toIface {
			for _, k := range sortedSyms(in.symtab, fmt.Sprintf("bool|type|%d|", i.id)) {
				if k != "bool|"+key && st.decide(&Num{S(in.symtab[k])}) == 1 && !in.ifaceKey(k) {
					return fail()
				}
			}
		}
		if st.must(in.boolKey(key, fmt.Sprintf("opq%d is %s", i.id, x.AssertedType))) {
			if toIface {
				return okv(i)
			}
			return okv(in.keyed("as|"+key, x.AssertedType))
		}
		return fail()
	}
	undecided("type assertion on %s", valStr(v))
	return nil
}
func (in *Interp) ifaceKey(k string) bool { return strings.Contains(k, "interface") }
func sortedSyms(m map[string]*Sym, prefix string) []string {
	var r []string
	for k := range m {
		if strings.HasPrefix(k, prefix) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// ---- operators ----------------------------------------------------------------------------------

func (st *State) complement(v Val, t types.Type) Val {
	if c, ok := isConstNum(v); ok {
		return cst(wrapConst(^c, t))
	}
	if n, ok := v.(*Num); ok {
		_, hi, bits, uns, _ := intInfo(t)
		if uns && bits == 64 {
			return st.modular(K(-1).minus(n.e), t, "not")
		}
		if uns {
			return &Num{K(hi).minus(n.e)}
		}
		return &Num{K(-1).minus(n.e)}
	}
	undecided("complement of %s", valStr(v))
	return nil
}

func (in *Interp) binop(st *State, x *ssa.BinOp, a, b Val) Val {
	a, b = st.finVal(a), st.finVal(b)
	t := x.X.Type()
	_, _, _, _, num := intInfo(t)
	switch x.Op {
	case token.EQL, token.NEQ:
		r := st.equal(a, b)
		if x.Op == token.NEQ {
			return st.not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if num {
			return st.cmp(x.Op.String(), a, b)
		}
		if isString(t) {
			s1, ok1 := a.(*Str).q.constStr()
			s2, ok2 := b.(*Str).q.constStr()
			if ok1 && ok2 {
				return boolV(x.Op == token.LSS && s1 < s2 || x.Op == token.LEQ && s1 <= s2 || x.Op == token.GTR && s1 > s2 || x.Op == token.GEQ && s1 >= s2)
			}
		}
		return in.boolKey(fmt.Sprintf("cmp|%s|%s|%s", x.Op, valStr(a), valStr(b)), "cmp")
	case token.ADD:
		if isString(t) {
			return &Str{st.normSeq(cat(st.content(a), st.content(b)))}
		}
	}
	if num {
		if x.Op == token.QUO || x.Op == token.REM {
			if st.must(st.cmp("==", b, cst(0))) {
				panic(goPanic{nil, "division by zero at " + in.ipos(x)})
			}
		}
		if x.Op == token.AND || x.Op == token.OR {
			// booleans as conditions
			if _, _, bits, _, _ := intInfo(t); bits == 1 {
				return st.numOp(x.Op, &Num{st.affOf(a)}, &Num{st.affOf(b)}, x.Type())
			}
		}
		return st.numOp(x.Op, a, b, x.Type())
	}
	return in.fresh(st, x.Type(), "binop")
}

func (in *Interp) newMap(ents []mapEnt, open bool) *MapV {
	in.nsym++
	return &MapV{ents: ents, open: open, id: in.nsym}
}
func (in *Interp) opqArr(t types.Type) *OpaqueArr {
	in.nsym++
	return &OpaqueArr{t, in.nsym}
}
