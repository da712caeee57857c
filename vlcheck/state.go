package main

import (
	"fmt"
	"go/types"
	"math/bits"
)

type domSet struct {
	base int64
	b    [4]uint64
}

func (d *domSet) has(v int64) bool {
	i := v - d.base
	return i >= 0 && i < 256 && d.b[i>>6]>>(uint(i)&63)&1 == 1
}
func (d *domSet) count() int {
	return bits.OnesCount64(d.b[0]) + bits.OnesCount64(d.b[1]) + bits.OnesCount64(d.b[2]) + bits.OnesCount64(d.b[3])
}
func (d *domSet) each(f func(int64)) {
	for i := int64(0); i < 256; i++ {
		if d.b[i>>6]>>(uint(i)&63)&1 == 1 {
			f(d.base + i)
		}
	}
}

type Obj struct {
	v     Val
	t     types.Type // type of the object (element type for slices' backing stores), may be nil
	alloc string     // allocation site, for reports
}

// State is one abstract state: store, ranges and value sets of symbols, affine facts.
type State struct {
	in    *Interp
	heap  map[int]*Obj
	iv    map[*Sym][2]int64
	dom   map[*Sym]*domSet
	eq    map[*Sym]*Aff // solved equalities
	facts []*Aff        // each >= 0
	neq   []*Aff        // each != 0
	dead  bool
	// monitors
	failed  []string // module functions that returned a non-nil error on this path
	wrote   map[int]bool
	panicV  Val // current panic value inside deferred calls
	panicky bool
	note    []string
	now     []*Aff  // clock readings
	events  []event // accesses to monitored memory
	// cache of normalised facts
	ver, factsVer int
	factsN        []*Aff
	factsLen      int
}

func (st *State) clone() *State {
	n := &State{in: st.in, heap: make(map[int]*Obj, len(st.heap)+8), iv: make(map[*Sym][2]int64, len(st.iv)+8),
		dom: make(map[*Sym]*domSet, len(st.dom)+4), eq: make(map[*Sym]*Aff, len(st.eq)+2), wrote: make(map[int]bool, len(st.wrote))}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.iv {
		n.iv[k] = v
	}
	for k, v := range st.dom {
		n.dom[k] = v
	}
	for k, v := range st.eq {
		n.eq[k] = v
	}
	for k := range st.wrote {
		n.wrote[k] = true
	}
	n.facts = append([]*Aff(nil), st.facts...)
	n.neq = append([]*Aff(nil), st.neq...)
	n.failed = st.failed[:len(st.failed):len(st.failed)]
	n.events = st.events[:len(st.events):len(st.events)]
	n.now = st.now[:len(st.now):len(st.now)]
	n.note = st.note[:len(st.note):len(st.note)]
	n.ver, n.factsVer, n.factsN, n.factsLen = st.ver, st.factsVer, st.factsN[:len(st.factsN):len(st.factsN)], st.factsLen
	n.panicV, n.panicky, n.dead = st.panicV, st.panicky, st.dead
	return n
}

func newState(in *Interp) *State {
	return &State{in: in, heap: map[int]*Obj{}, iv: map[*Sym][2]int64{}, dom: map[*Sym]*domSet{}, eq: map[*Sym]*Aff{}, wrote: map[int]bool{}}
}

// ---- store --------------------------------------------------------------------------------------

func (st *State) get(id int) Val {
	if o, ok := st.heap[id]; ok {
		return o.v
	}
	if o, ok := st.in.base[id]; ok {
		return o.v
	}
	undecided("reference to unknown object o%d", id)
	return nil
}
func (st *State) objInfo(id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	return st.in.base[id]
}
func (st *State) set(id int, v Val) {
	o := st.objInfo(id)
	st.heap[id] = &Obj{v: v, t: o.t, alloc: o.alloc}
	st.wrote[id] = true
	if st.in.onWrite != nil {
		st.in.onWrite(st, id)
	}
}
func (st *State) alloc(v Val, t types.Type, site string) int {
	st.in.nobj++
	st.heap[st.in.nobj] = &Obj{v: v, t: t, alloc: site}
	return st.in.nobj
}

// ---- ranges and facts ---------------------------------------------------------------------------

func (st *State) rng(s *Sym) (int64, int64) {
	if r, ok := st.iv[s]; ok {
		return r[0], r[1]
	}
	lo, hi := s.lo, s.hi
	if s.shrOf != nil {
		l, h := st.bounds(st.norm(s.shrOf))
		if l := floorDiv(l, s.shrD); l > lo {
			lo = l
		}
		if h := floorDiv(h, s.shrD); h < hi {
			hi = h
		}
	}
	return lo, hi
}

// norm substitutes solved equalities and symbols whose value is known.
func (st *State) norm(e *Aff) *Aff {
	if len(e.t) == 0 {
		return e
	}
	for round := 0; round < 8; round++ {
		changed := false
		for _, t := range e.t {
			if r, ok := st.eq[t.s]; ok {
				e = e.add(r, t.k).add(S(t.s), -t.k)
				changed = true
				break
			}
			if lo, hi := st.rng(t.s); lo == hi {
				e = e.add(S(t.s), -t.k).addc(t.k * lo)
				changed = true
				break
			}
		}
		if !changed {
			return e
		}
		if round == 7 {
			round = 6
			if len(e.t) == 0 {
				return e
			}
		}
	}
	return e
}

const inf = int64(1) << 62

func (st *State) bounds(e *Aff) (int64, int64) {
	lo, hi := e.c, e.c
	for _, t := range e.t {
		l, h := st.rng(t.s)
		k := t.k
		if k < 0 {
			k, l, h = -k, -h, -l
		}
		lo = satAdd(lo, satMul(l, k))
		hi = satAdd(hi, satMul(h, k))
	}
	return lo, hi
}
func satMul(a, k int64) int64 {
	if a >= inf/k {
		return inf
	}
	if a <= -inf/k {
		return -inf
	}
	return a * k
}
func satAdd(a, b int64) int64 {
	r := a + b
	if a <= -inf || b <= -inf || r < -inf {
		return -inf
	}
	if a >= inf || b >= inf || r > inf {
		return inf
	}
	return r
}

// nonneg reports whether e >= 0 is entailed.
func (st *State) nonneg(e *Aff) bool { return st.entails(st.norm(e)) }

// entails also uses that quotients are whole numbers: e >= 0 follows from D*e + D-1 >= 0.
func (st *State) entails(e *Aff) bool {
	if st.entail(e, 2) {
		return true
	}
	if len(e.t) < 2 || len(e.t) > 4 {
		return false
	}
	g := int64(0)
	for _, t := range e.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		r := &Aff{c: floorDiv(e.c, g)}
		for _, t := range e.t {
			r.t = append(r.t, term{t.s, t.k / g})
		}
		e = r
	}
	for i, t := range e.t {
		d := t.s.shrD
		if t.s.shrOf == nil || d < 2 || d > 1<<32 {
			continue
		}
		for j := range e.t {
			if k := e.t[j].k; k > 1<<26 || k < -1<<26 || j < i && e.t[j].s.shrD == d {
				d = 0
			}
		}
		if d != 0 && e.c < 1<<26 && e.c > -1<<26 && st.entail(e.scale(d).addc(d-1), 2) {
			return true
		}
	}
	return false
}

// normFacts gives the facts with solved symbols substituted.
func (st *State) normFacts() []*Aff {
	if st.factsVer == st.ver+1 && st.factsLen == len(st.facts) {
		return st.factsN
	}
	from := 0
	if st.factsVer == st.ver+1 && st.factsLen < len(st.facts) {
		from = st.factsLen
		st.factsN = st.factsN[:len(st.factsN):len(st.factsN)]
	} else {
		st.factsN = make([]*Aff, 0, len(st.facts))
	}
	st.factsVer, st.factsLen = st.ver+1, len(st.facts)
	for _, f := range st.facts[from:] {
		if f = st.norm(f); !f.isConst() {
			st.factsN = append(st.factsN, f)
		} else if f.c < 0 {
			st.dead = true
		}
	}
	return st.factsN
}

func (st *State) entail(e *Aff, depth int) bool {
	lo, _ := st.bounds(e)
	if lo >= 0 {
		return true
	}
	if len(e.t) == 0 || depth == 0 {
		return false
	}
	for _, f := range st.normFacts() {
		// useful only when f shares a symbol with the same sign
		use := int64(0)
		for _, t := range e.t {
			for _, u := range f.t {
				if t.s == u.s && (t.k > 0) == (u.k > 0) {
					k := t.k / u.k
					if k >= 1 && (use == 0 || k < use) {
						use = k
					}
				}
			}
		}
		if use == 0 {
			continue
		}
		if st.entail(e.add(f, -use), depth-1) {
			return true
		}
	}
	return false
}

// decide returns 1 / 0 / -1 for true / false / unknown.
func (st *State) decideAff(op byte, e *Aff) int {
	e = st.norm(e)
	if e.isConst() {
		r := false
		switch op {
		case 'g':
			r = e.c >= 0
		case '=':
			r = e.c == 0
		case '!':
			r = e.c != 0
		}
		return b2i(r)
	}
	switch op {
	case 'g':
		if st.entails(e) {
			return 1
		}
		if st.entails(e.scale(-1).addc(-1)) {
			return 0
		}
		if x := unshift(e); x != nil {
			return st.decideAff('g', x)
		}
		return -1
	case '=', '!':
		eqT, eqF := 1, 0
		if op == '!' {
			eqT, eqF = 0, 1
		}
		if s, k := soleSym(e); s != nil {
			if e.c%k != 0 {
				return eqF
			}
			v := -e.c / k
			if lo, hi := st.rng(s); v < lo || v > hi {
				return eqF
			} else if lo == hi {
				return eqT
			}
			if d := st.dom[s]; d != nil && !d.has(v) {
				return eqF
			}
		}
		if lo, hi := st.bounds(e); lo > 0 || hi < 0 {
			return eqF
		}
		for _, n := range st.neq {
			n = st.norm(n)
			if affEq(n, e) || affEq(n.scale(-1), e) {
				return eqF
			}
		}
		// gcd test
		g := int64(0)
		for _, t := range e.t {
			g = gcd(g, t.k)
		}
		if g > 1 && e.c%g != 0 {
			return eqF
		}
		if len(st.facts) > 0 {
			if st.entail(e.addc(-1), 2) || st.entail(e.scale(-1).addc(-1), 2) {
				return eqF
			}
			if st.entail(e, 2) && st.entail(e.scale(-1), 2) {
				return eqT
			}
		}
		return -1
	}
	return -1
}

// unshift rewrites a bound e >= 0 on a shifted value into one on the value itself.
func unshift(e *Aff) *Aff {
	s, k := soleSym(e)
	if s == nil || s.shrOf == nil {
		return nil
	}
	if k > 0 { // s >= b
		return s.shrOf.addc(-satMul(ceilDiv(-e.c, k), s.shrD))
	}
	b := floorDiv(e.c, -k) // s <= b
	return K(satMul(b+1, s.shrD) - 1).minus(s.shrOf)
}
func gcd(a, b int64) int64 {
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
func soleSym(e *Aff) (*Sym, int64) {
	if len(e.t) == 1 {
		return e.t[0].s, e.t[0].k
	}
	return nil, 0
}

// tie applies a new range of a quotient s to the dividend x: l*d <= x <= (h+1)*d - 1. It has to be
// called before the range is set: facts that mention s would then answer for x.
func (st *State) tie(s *Sym, l, h int64) {
	if s.shrOf == nil {
		return
	}
	st.assumeAff('g', s.shrOf.addc(-satMul(l, s.shrD)))
	if h < inf/s.shrD-1 && !st.dead {
		st.assumeAff('g', K((h+1)*s.shrD-1).minus(s.shrOf))
	}
}

func (st *State) setRange(s *Sym, lo, hi int64) {
	l, h := st.rng(s)
	if lo > l {
		l = lo
	}
	if hi < h {
		h = hi
	}
	if d := st.dom[s]; d != nil {
		for l <= h && !d.has(l) {
			l++
		}
		for h >= l && !d.has(h) {
			h--
		}
	}
	if l > h {
		st.dead = true
		return
	}
	if st.tie(s, l, h); st.dead {
		return
	}
	st.iv[s] = [2]int64{l, h}
	if l == h {
		st.ver++
	}
}

// mkDom returns the value set of a small-range symbol (nil when too wide).
func (st *State) mkDom(s *Sym) *domSet {
	if s.bitsOf != nil {
		return nil
	}
	lo, hi := st.rng(s)
	if d := st.dom[s]; d != nil {
		n := &domSet{base: d.base}
		d.each(func(v int64) {
			if v >= lo && v <= hi {
				i := v - d.base
				n.b[i>>6] |= 1 << (uint(i) & 63)
			}
		})
		return n
	}
	if hi-lo > 255 {
		return nil
	}
	n := &domSet{base: lo}
	for v := lo; v <= hi; v++ {
		i := v - lo
		n.b[i>>6] |= 1 << (uint(i) & 63)
	}
	return n
}

func (st *State) restrict(s *Sym, keep func(int64) bool) {
	d := st.mkDom(s)
	if d == nil {
		undecided("value set of wide symbol %s", s.name)
	}
	n := &domSet{base: d.base}
	lo, hi := int64(1), int64(0)
	d.each(func(v int64) {
		if keep(v) {
			i := v - d.base
			n.b[i>>6] |= 1 << (uint(i) & 63)
			if lo > hi {
				lo = v
			}
			hi = v
		}
	})
	if lo > hi {
		st.dead = true
		return
	}
	if st.tie(s, lo, hi); st.dead {
		return
	}
	st.dom[s] = n
	st.iv[s] = [2]int64{lo, hi}
	if lo == hi {
		st.ver++
	}
}

func (st *State) assumeAff(op byte, e *Aff) {
	e = st.norm(e)
	switch st.decideAff(op, e) {
	case 1:
		return
	case 0:
		st.dead = true
		return
	}
	s, k := soleSym(e)
	if s != nil && s.modOf != nil && op != 'g' && e.c%k == 0 {
		// all numbers stay below 2^60 in size: equal residues are equal numbers, for those that
		// both lie in a range shorter than 2^64
		r := st.residue(s.modOf).addc(e.c / k)
		if lo, hi := st.bounds(r); -inf < lo && hi < inf || r.isConst() {
			st.assumeAff(op, r)
			if st.dead {
				return
			}
		}
	}
	switch op {
	case 'g':
		if x := unshift(e); x != nil {
			st.assumeAff('g', x)
			if st.dead {
				return
			}
		}
		if s != nil {
			if k > 0 {
				st.setRange(s, ceilDiv(-e.c, k), inf)
			} else {
				st.setRange(s, -inf, floorDiv(e.c, -k))
			}
			return
		}
		if st.nonneg(e.scale(-1)) { // e<=0 known: e==0
			st.assumeAff('=', e)
			return
		}
		st.facts = append(st.facts, e)
		st.propagate(e)
	case '=':
		if s != nil {
			if e.c%k != 0 {
				st.dead = true
				return
			}
			st.setRange(s, -e.c/k, -e.c/k)
			return
		}
		// bounds propagation both ways, then solve for a unit-coefficient symbol
		st.propagate(e)
		st.propagate(e.scale(-1))
		e = st.norm(e)
		if st.dead || len(e.t) < 2 {
			if len(e.t) == 1 {
				st.assumeAff('=', e)
			} else if len(e.t) == 0 && e.c != 0 {
				st.dead = true
			}
			return
		}
		var best *term
		for i := range e.t {
			t := &e.t[i]
			if (t.k == 1 || t.k == -1) && t.s.shrOf == nil {
				if best == nil || t.s.isLen && !best.s.isLen || t.s.isLen == best.s.isLen && t.s.id > best.s.id {
					best = t
				}
			}
		}
		if best == nil {
			st.facts = append(st.facts, e, e.scale(-1))
			return
		}
		b := *best
		r := e.add(S(b.s), -b.k)
		if b.k == 1 {
			r = r.scale(-1)
		}
		lo, hi := st.rng(b.s)
		d := st.dom[b.s]
		st.eq[b.s] = r
		st.ver++
		// keep what was known about the eliminated symbol
		st.assumeAff('g', r.addc(-lo))
		if hi < inf {
			st.assumeAff('g', K(hi).minus(r))
		}
		if d != nil {
			if rs := r.single(); rs != nil && st.mkDom(rs) != nil {
				st.restrict(rs, d.has)
			}
		}
		for i := range st.neq {
			if n := st.norm(st.neq[i]); n.isConst() && n.c == 0 {
				st.dead = true
			}
		}
	case '!':
		if s != nil && e.c%k == 0 {
			v := -e.c / k
			lo, hi := st.rng(s)
			if lo == v {
				st.setRange(s, v+1, inf)
				return
			}
			if hi == v {
				st.setRange(s, -inf, v-1)
				return
			}
			if st.mkDom(s) != nil {
				st.restrict(s, func(x int64) bool { return x != v })
				return
			}
		}
		if st.nonneg(e) {
			st.assumeAff('g', e.addc(-1))
			return
		}
		if st.nonneg(e.scale(-1)) {
			st.assumeAff('g', e.scale(-1).addc(-1))
			return
		}
		st.neq = append(st.neq, e)
	}
}

// propagate tightens the ranges of the symbols of a fact e >= 0.
func (st *State) propagate(e *Aff) {
	for _, t := range e.t {
		rest := e.add(S(t.s), -t.k)
		_, hi := st.bounds(rest)
		if hi >= inf {
			continue
		}
		// k*s >= -hi
		if t.k > 0 {
			if b := ceilDiv(-hi, t.k); b > func() int64 { l, _ := st.rng(t.s); return l }() {
				st.setRange(t.s, b, inf)
			}
		} else {
			if b := floorDiv(hi, -t.k); b < func() int64 { _, h := st.rng(t.s); return h }() {
				st.setRange(t.s, -inf, b)
			}
		}
		if st.dead {
			return
		}
	}
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// ---- booleans -----------------------------------------------------------------------------------

func (st *State) decide(v Val) int {
	v = st.bitCond(v)
	switch x := v.(type) {
	case *Num:
		return st.decideAff('!', x.e)
	case *Cond:
		return st.decideAff(x.op, x.e)
	case *Fin:
		t, f := false, false
		d := st.mkDom(x.s)
		if d == nil {
			undecided("table over wide symbol")
		}
		d.each(func(v int64) {
			i := v - x.base
			if i < 0 || i >= int64(len(x.tab)) || x.tab[i] == nil {
				return
			}
			if c, ok := isConstNum(x.tab[i]); ok {
				if c != 0 {
					t = true
				} else {
					f = true
				}
			} else {
				t, f = true, true
			}
		})
		switch {
		case t && f:
			return -1
		case t:
			return 1
		default:
			return 0
		}
	}
	undecided("truth of %s", valStr(v))
	return -1
}

// bitCond turns a bound of a bit length into a bound of the number.
func (st *State) bitCond(v Val) Val {
	x, ok := v.(*Cond)
	if !ok || x.op != 'g' {
		return v
	}
	e := st.norm(x.e)
	if len(e.t) != 1 || e.t[0].s.bitsOf == nil {
		return v
	}
	if lo, hi := st.bounds(e); lo >= 0 || hi < 0 {
		return &Cond{'g', K(lo)}
	}
	n := e.t[0].s.bitsOf
	if k := e.t[0].k; k > 0 { // bits >= b
		b := -floorDiv(e.c, k)
		if b <= 0 {
			return &Cond{'g', K(0)}
		} else if b < 60 {
			return &Cond{'g', n.addc(-(1 << uint(b-1)))}
		}
		return &Cond{'g', K(-1)}
	} else { // bits <= b
		b := floorDiv(e.c, -k)
		if b < 0 {
			return &Cond{'g', K(-1)}
		} else if b < 60 {
			return &Cond{'g', K(1<<uint(b) - 1).minus(n)}
		}
		return &Cond{'g', K(0)}
	}
}

func (st *State) assume(v Val, truth bool) {
	v = st.bitCond(v)
	switch x := v.(type) {
	case *Num:
		if truth {
			st.assumeAff('!', x.e)
		} else {
			st.assumeAff('=', x.e)
		}
	case *Cond:
		if truth {
			st.assumeAff(x.op, x.e)
			return
		}
		n := negate(x)
		st.assumeAff(n.op, n.e)
	case *Fin:
		st.restrict(x.s, func(v int64) bool {
			i := v - x.base
			if i < 0 || i >= int64(len(x.tab)) || x.tab[i] == nil {
				return false
			}
			c, ok := isConstNum(x.tab[i])
			return !ok || (c != 0) == truth
		})
	default:
		undecided("assumption on %s", valStr(v))
	}
}

func negate(c *Cond) *Cond {
	switch c.op {
	case 'g':
		return &Cond{'g', c.e.scale(-1).addc(-1)}
	case '=':
		return &Cond{'!', c.e}
	}
	return &Cond{'=', c.e}
}

type forkReq struct{ cond Val }

// must decides a condition; when it is unknown the interpreter splits the state on it and
// re-executes the current instruction.
func (st *State) must(v Val) bool {
	switch st.decide(v) {
	case 1:
		return true
	case 0:
		return false
	}
	panic(forkReq{v})
}
func (st *State) mustGE(a, b *Aff) bool { return st.must(&Cond{'g', a.minus(b)}) }
func (st *State) mustEQ(a, b *Aff) bool { return st.must(&Cond{'=', a.minus(b)}) }

type undecidedErr struct{ msg string }

func undecided(f string, a ...interface{}) { panic(undecidedErr{fmt.Sprintf(f, a...)}) }
