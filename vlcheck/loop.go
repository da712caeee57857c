package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// loopEntry applies the loop policy when an item reaches a loop head.
func (in *Interp) loopEntry(fn *ssa.Function, fi *fnInfo, it *item, l *loopInfo) (outs []Outcome, exits []*item, done bool) {
	if it.cnt == nil {
		it.cnt = map[*ssa.BasicBlock]int{}
	}
	inside := it.prev != nil && l.body[it.prev]
	if !inside {
		it.cnt[l.head] = 0
		if it.forked != nil {
			delete(it.forked, l.head)
		}
	} else {
		it.cnt[l.head]++
	}
	n := it.cnt[l.head]
	if in.scanTry(fn, fi, it, l) {
		if outs, exits, done = in.scanLoop(fn, fi, it, l); done {
			return
		}
	}
	if !in.widen {
		if n > in.unroll {
			undecided("loop at %s not resolved after %d iterations", in.ipos(l.head.Instrs[len(l.head.Instrs)-1]), n)
		}
		return nil, nil, false
	}
	if n > 2000 {
		undecided("loop at %s not resolved", in.ipos(l.head.Instrs[len(l.head.Instrs)-1]))
	}
	need := false
	if l.leaf && n < in.leafK {
		return nil, nil, false
	}
	switch in.probe(fn, fi, it) {
	case 1:
		need = true
	case 0:
		need = false
	case -1: // the head does not decide the exit
		need = n >= 1 && (it.forked[l.head] || n > 20)
	}
	if !need {
		return nil, nil, false
	}
	outs, exits = in.widenLoop(fn, fi, it, l)
	return outs, exits, true
}

// probe: 1 the head's exit condition is undecided, 0 decided, -1 the head has no exit condition.
func (in *Interp) probe(fn *ssa.Function, fi *fnInfo, it *item) int {
	l := fi.loops[it.blk]
	last := it.blk.Instrs[len(it.blk.Instrs)-1]
	f, ok := last.(*ssa.If)
	if !ok || l.body[it.blk.Succs[0]] && l.body[it.blk.Succs[1]] {
		return -1
	}
	c := it.clone()
	sp, sc := in.onWrite, in.onMapSet
	in.onWrite, in.onMapSet = nil, nil
	defer func() { in.onWrite, in.onMapSet = sp, sc }()
	in.phis(fi, c)
	for {
		ins := c.blk.Instrs[c.pc]
		if ins == last {
			break
		}
		next, _, fork, pan := in.step(fn, fi, c, ins)
		if fork != nil || pan != nil || len(next) != 1 {
			return 1
		}
		c = next[0]
	}
	if c.st.decide(in.val(fi, c, f.Cond)) == -1 {
		return 1
	}
	return 0
}

type tvar struct {
	s     *Sym
	entry *Aff
}
type cand struct {
	op  byte // 'g' or '='
	e   *Aff
	up  *Sym // upper bound of
	low *Sym // lower bound of
	bad bool
}

type widening struct {
	in    *Interp
	vars  []*tvar
	isVar map[*Sym]*tvar
	any   map[int]bool // objects standing for anything
	blobs map[*Blob]bool
	chg   bool
	bind  map[*Sym]*Aff
	st    *State // arrival state
	entry *State
}

func (w *widening) newVar(t types.Type, entry Val, name string) Val {
	lo, hi, _, _, _ := intInfo(t)
	s := w.in.sym(name, lo, hi)
	v := &tvar{s: s}
	if n, ok := entry.(*Num); ok {
		v.entry = n.e
	}
	w.vars = append(w.vars, v)
	w.isVar[s] = v
	w.chg = true
	return &Num{S(s)}
}
func (w *widening) newAff(entry *Aff, name string) *Aff {
	s := w.in.sym(name, -inf, inf)
	v := &tvar{s, entry}
	w.vars = append(w.vars, v)
	w.isVar[s] = v
	w.chg = true
	return S(s)
}

// gen makes the template cover nv.
func (w *widening) gen(t Val, nv Val, ty types.Type, name string) Val {
	if t == nv {
		return t
	}
	st := w.st
	store := false // ty is the element type of a backing store
	switch t.(type) {
	case *Bytes, *ArrV, *OpaqueArr:
		store = true
	}
	if _, _, _, _, ok := intInfo(ty); ok && !store {
		nv = st.finVal(nv)
		if n, ok := t.(*Num); ok {
			if s := n.e.single(); s != nil && w.isVar[s] != nil {
				switch x := nv.(type) {
				case *Num:
					w.bind[s] = st.norm(x.e)
				default:
					w.bind[s] = nil
				}
				return t
			}
			if m, ok := nv.(*Num); ok && st.decideAff('=', m.e.minus(n.e)) == 1 {
				return t
			}
		}
		if sameVal(t, nv) {
			return t
		}
		return w.newVar(ty, t, name)
	}
	if sameVal(t, nv) {
		return t
	}
	switch x := t.(type) {
	case *Opaque:
		if w.any[-x.id] {
			return t
		}
	case *StructV:
		y, ok := nv.(*StructV)
		su, ok2 := under(ty).(*types.Struct)
		if ok && ok2 && len(x.f) == len(y.f) {
			r := &StructV{make([]Val, len(x.f))}
			same := true
			for i := range x.f {
				r.f[i] = w.gen(x.f[i], y.f[i], su.Field(i).Type(), name+"."+su.Field(i).Name())
				if r.f[i] != x.f[i] {
					same = false
				}
			}
			if same {
				return t
			}
			return r
		}
	case *Slice:
		y, ok := nv.(*Slice)
		if w.any[x.obj] {
			if ok {
				w.bindAff(x.len, y.len)
			} else {
				w.bindAff(x.len, nil)
			}
			return t
		}
		if ok && y.obj == x.obj && x.obj != 0 {
			a, b, c := w.genAff(x.off, y.off, name+".off"), w.genAff(x.len, y.len, name+".len"), w.genAff(x.cap, y.cap, name+".cap")
			if a == x.off && b == x.len && c == x.cap {
				return t
			}
			return &Slice{x.obj, a, b, c}
		}
		if ok && y.obj == 0 && x.obj == 0 {
			return t
		}
		// any slice
		w.chg = true
		n := w.newAff(x.len, "len("+name+")")
		w.in.nobj++
		id := w.in.nobj
		et := under(ty).(*types.Slice).Elem()
		if isByte(et) {
			w.in.nblob++
			w.in.base[id] = &Obj{v: &Bytes{&Seq{[]Piece{{k: pBlob, base: &Blob{w.in.nblob, name}, off: K(0), n: n}}}}, t: et, alloc: name}
		} else {
			w.in.nsym++
			w.in.base[id] = &Obj{v: &OpaqueArr{et, w.in.nsym}, t: et, alloc: name}
		}
		w.any[id] = true
		return &Slice{id, K(0), n, n}
	case *Str:
		if len(x.q.p) == 1 && x.q.p[0].k == pBlob && w.blobs[x.q.p[0].base] {
			return t
		}
		y, ok := nv.(*Str)
		if ok && st.seqEq(x.q, y.q) == 1 {
			return t
		}
		w.chg = true
		w.in.nblob++
		b := &Blob{w.in.nblob, name}
		w.blobs[b] = true
		return &Str{&Seq{[]Piece{{k: pBlob, base: b, off: K(0), n: S(w.in.sym("len("+name+")", 0, 1<<40))}}}}
	case *MapRef:
		y, ok := nv.(*MapRef)
		if ok && y.obj == x.obj {
			return t
		}
	case *MapV:
		if x.open && len(x.ents) == 0 {
			return t
		}
		w.chg = true
		return w.in.newMap(nil, true)
	case *Bytes:
		y, ok := nv.(*Bytes)
		if ok && st.seqEq(x.q, y.q) == 1 {
			return t
		}
		if len(x.q.p) == 1 && x.q.p[0].k == pBlob && w.blobs[x.q.p[0].base] {
			return t
		}
		w.chg = true
		w.in.nblob++
		b := &Blob{w.in.nblob, name}
		w.blobs[b] = true
		return &Bytes{&Seq{[]Piece{{k: pBlob, base: b, off: K(0), n: x.q.size()}}}}
	case *OpaqueArr:
		if _, ok := nv.(*OpaqueArr); ok {
			return t
		}
	case *ArrV:
		y, ok := nv.(*ArrV)
		if ok && len(x.e) == len(y.e) {
			var et types.Type
			switch u := under(ty).(type) {
			case *types.Array:
				et = u.Elem()
			default:
				et = ty // backing store: ty is the element type
			}
			r := &ArrV{make([]Val, len(x.e))}
			same := true
			for i := range x.e {
				r.e[i] = w.gen(x.e[i], y.e[i], et, name)
				if r.e[i] != x.e[i] {
					same = false
				}
			}
			if same {
				return t
			}
			return r
		}
	case *Iface:
		y, ok := nv.(*Iface)
		if ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			v := w.gen(x.v, y.v, x.t, name)
			if v == x.v {
				return t
			}
			return &Iface{x.t, v}
		}
	case *Iter:
		if _, ok := nv.(*Iter); ok && x.open && x.pos == len(x.ents) {
			return t
		}
	}
	w.chg = true
	w.in.nsym++
	w.any[-w.in.nsym] = true
	return &Opaque{ty, w.in.nsym}
}
func (w *widening) bindAff(t, n *Aff) {
	if s := t.single(); s != nil && w.isVar[s] != nil {
		if n != nil {
			n = w.st.norm(n)
		}
		w.bind[s] = n
	}
}
func (w *widening) genAff(t, n *Aff, name string) *Aff {
	if s := t.single(); s != nil && w.isVar[s] != nil {
		w.bind[s] = w.st.norm(n)
		return t
	}
	if w.st.decideAff('=', t.minus(n)) == 1 {
		return t
	}
	return w.newAff(t, name)
}

func subst(e *Aff, bind map[*Sym]*Aff) (*Aff, bool) {
	r := e
	for _, t := range e.t {
		b, ok := bind[t.s]
		if !ok {
			continue
		}
		if b == nil {
			return nil, false
		}
		r = r.add(S(t.s), -t.k)
	}
	for _, t := range e.t {
		if b, ok := bind[t.s]; ok {
			r = r.add(b, t.k)
		}
	}
	return r, true
}

func (in *Interp) widenLoop(fn *ssa.Function, fi *fnInfo, it *item, l *loopInfo) ([]Outcome, []*item) {
	w := &widening{in: in, isVar: map[*Sym]*tvar{}, any: map[int]bool{}, blobs: map[*Blob]bool{}, entry: it.st}
	var ph []*ssa.Phi
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
	}
	T := make([]Val, len(ph))
	for i, p := range ph {
		T[i] = in.phiVal(fi, it, p)
	}
	heap := map[int]Val{}
	var swallowed []string // failures inside the loop that did not leave it
	var iters []int
	for b := range l.body {
		for _, ins := range b.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				if r, ok := nx.Iter.(*ssa.Range); ok && !l.body[r.Block()] {
					iters = append(iters, fi.idx[r])
				}
			}
		}
	}
	sort.Ints(iters)
	bounds := in.loopBounds(fi, it, l)
	var cands []*cand
	sw, sm := in.onWrite, in.onMapSet
	_ = sw
	_ = sm
	where := in.ipos(l.head.Instrs[len(l.head.Instrs)-1]) + " in " + shortFn(fn)
	for round := 0; ; round++ {
		if round > 60 {
			undecided("loop at %s: no stable abstraction", where)
		}
		st := it.st.clone()
		st.wrote = map[int]bool{}
		st.failed = append(st.failed[:len(st.failed):len(st.failed)], swallowed...)
		for id, v := range heap {
			o := st.objInfo(id)
			st.heap[id] = &Obj{v: v, t: o.t, alloc: o.alloc}
		}
		for _, c := range cands {
			if !c.bad {
				st.assumeAff(c.op, c.e)
			}
		}
		if st.dead {
			undecided("loop at %s: inconsistent abstraction", where)
		}
		g := &item{blk: l.head, prev: it.prev, pc: len(ph), env: append([]Val(nil), it.env...), st: st,
			defers: it.defers[:len(it.defers):len(it.defers)], atHead: true}
		for i, p := range ph {
			g.env[fi.idx[p]] = T[i]
		}
		outs, arr, ex := in.drive(fn, fi, []*item{g}, l)
		w.chg = false
		for _, a := range arr {
			if len(swallowed) == 0 && len(a.st.failed) > len(it.st.failed) {
				swallowed = a.st.failed[len(it.st.failed):]
				w.chg = true
			}
		}
		binds := make([]map[*Sym]*Aff, len(arr))
		for ai, a := range arr {
			w.bind = map[*Sym]*Aff{}
			w.st = a.st
			for i, p := range ph {
				T[i] = w.gen(T[i], in.phiVal(fi, a, p), p.Type(), p.Comment)
			}
			var ids []int
			seen := map[int]bool{}
			for id := range a.st.wrote {
				ids, seen[id] = append(ids, id), true
			}
			for id := range heap {
				if !seen[id] {
					ids = append(ids, id)
				}
			}
			sort.Ints(ids)
			for _, id := range ids {
				o := it.st.objInfo(id)
				if o == nil {
					continue // allocated inside
				}
				cur, ok := heap[id]
				if !ok {
					cur = o.v
				}
				n := w.gen(cur, a.st.get(id), objType(o), fmt.Sprintf("o%d", id))
				if n != cur {
					heap[id] = n
				} else if ok {
					heap[id] = cur
				}
			}
			binds[ai] = w.bind
		}
		if w.chg {
			cands = w.candidates(bounds)
			continue
		}
		dropped := false
		for _, c := range cands {
			if c.bad {
				continue
			}
			for ai, a := range arr {
				e, ok := subst(c.e, binds[ai])
				if !ok || a.st.decideAff(c.op, e) != 1 {
					c.bad, dropped = true, true
					break
				}
			}
		}
		if dropped {
			continue
		}
		// progress
		rep := in.loopRep[where]
		if rep == nil {
			rep = &loopReport{where: where, ok: true}
			in.loopRep[where] = rep
		}
		rep.n++
		how := ""
		if len(iters) > 0 {
			how = "iterates a finite map"
		}
		if len(arr) == 0 {
			how = "never repeats"
		}
		for _, v := range w.vars {
			if how != "" {
				break
			}
			up, down := true, true
			for ai, a := range arr {
				b := binds[ai][v.s]
				if b == nil {
					if _, ok := binds[ai][v.s]; !ok {
						b = S(v.s)
					} else {
						up, down = false, false
						break
					}
				}
				d := b.minus(S(v.s))
				if a.st.decideAff('g', d.addc(-1)) != 1 {
					up = false
				}
				if a.st.decideAff('g', d.scale(-1).addc(-1)) != 1 {
					down = false
				}
			}
			hasUp, hasLow := false, v.s.lo >= 0
			for _, c := range cands {
				if !c.bad && c.up == v.s {
					hasUp = true
				}
				if !c.bad && c.low == v.s {
					hasLow = true
				}
			}
			if up && hasUp {
				how = fmt.Sprintf("%s grows on every pass and is bounded", v.s.name)
			} else if down && hasLow {
				how = fmt.Sprintf("%s shrinks on every pass and is bounded", v.s.name)
			}
		}
		if how == "" {
			rep.ok = false
			rep.how = "no value provably advances on every pass"
		} else if rep.how == "" {
			rep.how = how
		}
		for _, e := range ex {
			for id := range it.st.wrote {
				e.st.wrote[id] = true
			}
			e.cnt, e.forked = copyCnt(it.cnt), copyForked(it.forked)
		}
		return outs, ex
	}
}

func objType(o *Obj) types.Type {
	if o.t == nil {
		undecided("untyped object")
	}
	return o.t
}

// loopBounds collects loop-invariant quantities that may bound loop variables.
func (in *Interp) loopBounds(fi *fnInfo, it *item, l *loopInfo) []*Aff {
	var r []*Aff
	add := func(e *Aff) {
		e = it.st.norm(e)
		for _, x := range r {
			if affEq(x, e) {
				return
			}
		}
		if len(r) < 12 {
			r = append(r, e)
		}
	}
	outside := func(v ssa.Value) Val {
		switch x := v.(type) {
		case *ssa.Const:
			return nil
		case ssa.Instruction:
			if l.body[x.Block()] {
				return nil
			}
		}
		i, ok := fi.idx[v]
		if !ok {
			return nil
		}
		return it.env[i]
	}
	for _, b := range l.head.Parent().Blocks {
		if !l.body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == nil {
					continue
				}
				switch v := outside(*op).(type) {
				case *Slice:
					if v.obj != 0 {
						add(v.len)
					}
				case *Str:
					add(v.q.size())
				case *Num:
					if _, ok := ins.(*ssa.BinOp); ok {
						add(v.e)
					}
				}
			}
		}
	}
	return r
}

func (w *widening) candidates(bounds []*Aff) []*cand {
	var cs []*cand
	st := w.entry
	holds := func(e *Aff) bool { return st.decideAff('g', e) == 1 }
	for _, v := range w.vars {
		if v.entry == nil {
			continue
		}
		cs = append(cs, &cand{op: 'g', e: S(v.s).minus(v.entry), low: v.s}, &cand{op: 'g', e: v.entry.minus(S(v.s)), up: v.s})
		if holds(v.entry) {
			cs = append(cs, &cand{op: 'g', e: S(v.s), low: v.s})
		}
		for _, b := range bounds {
			if holds(b.minus(v.entry)) {
				cs = append(cs, &cand{op: 'g', e: b.minus(S(v.s)), up: v.s})
			}
		}
	}
	for i, v := range w.vars {
		for _, x := range w.vars[i+1:] {
			if v.entry == nil || x.entry == nil {
				continue
			}
			cs = append(cs, &cand{op: '=', e: S(v.s).plus(S(x.s)).minus(v.entry.plus(x.entry))})
			cs = append(cs, &cand{op: '=', e: S(v.s).minus(S(x.s)).minus(v.entry.minus(x.entry))})
			if holds(x.entry.minus(v.entry)) {
				cs = append(cs, &cand{op: 'g', e: S(x.s).minus(S(v.s))})
			}
		}
	}
	return cs
}
