package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func under(t types.Type) types.Type { return t.Underlying() }

// intInfo gives the range of an integer or boolean type.
func intInfo(t types.Type) (lo, hi int64, bits uint, unsigned, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, 1, 1, true, true
	case types.Int8:
		return -128, 127, 8, false, true
	case types.Int16:
		return -32768, 32767, 16, false, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return -inf, inf, 64, false, true
	case types.Uint8:
		return 0, 255, 8, true, true
	case types.Uint16:
		return 0, 65535, 16, true, true
	case types.Uint32:
		return 0, 1<<32 - 1, 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf, 64, true, true
	}
	return
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &Str{&Seq{}}
		}
		if u.Kind() == types.UnsafePointer {
			return &Ptr{}
		}
		if u.Info()&types.IsFloat != 0 {
			return &Opaque{t: t}
		}
		return cst(0)
	case *types.Pointer:
		return &Ptr{}
	case *types.Slice:
		return &Slice{off: K(0), len: K(0), cap: K(0)}
	case *types.Map:
		return &MapRef{}
	case *types.Interface:
		return &Iface{}
	case *types.Signature:
		return &Func{}
	case *types.Chan:
		return &Ptr{}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
			return &TimeV{"zero", K(-1 << 61)}
		}
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return &Bytes{&Seq{[]Piece{{k: pZero, n: K(u.Len())}}}}
		}
		a := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		var tu Tuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, zero(u.At(i).Type()))
		}
		return tu
	}
	undecided("zero value of %s", t)
	return nil
}

func (in *Interp) sym(name string, lo, hi int64) *Sym {
	in.nsym++
	if len(name) > 80 { // names of symbols about symbols would grow without bound; the id is unique
		name = name[:77] + "..."
	}
	return &Sym{id: in.nsym, name: name, lo: lo, hi: hi}
}
func (in *Interp) symKey(key, name string, lo, hi int64) *Sym {
	if s, ok := in.symtab[key]; ok {
		return s
	}
	s := in.sym(name, lo, hi)
	in.symtab[key] = s
	return s
}
func (in *Interp) boolKey(key, name string) Val { return &Num{S(in.symKey("bool|"+key, name, 0, 1))} }

// fresh makes an unknown value of a type.
func (in *Interp) fresh(st *State, t types.Type, name string) Val {
	if lo, hi, bits, _, ok := intInfo(t); ok {
		if bits == 64 {
			hi = 1 << 40
			if lo < 0 {
				lo = -1 << 40
			}
		}
		return &Num{S(in.sym(name, lo, hi))}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			in.nblob++
			n := in.sym("len("+name+")", 0, 1<<40)
			return &Str{&Seq{[]Piece{{k: pBlob, base: &Blob{in.nblob, name}, off: K(0), n: S(n)}}}}
		}
	case *types.Slice:
		n := S(in.sym("len("+name+")", 0, 1<<40))
		if isByte(u.Elem()) {
			return in.freshBytes(st, name, n)
		}
		id := st.alloc(in.opqArr(u.Elem()), u.Elem(), name)
		return &Slice{id, K(0), n, n}
	case *types.Struct:
		if _, ok := zero(t).(*TimeV); ok {
			e := S(in.sym(name, -1<<40, (1<<32-1)*1e9))
			return &TimeV{fmt.Sprintf("t%d", in.nsym), e}
		}
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, in.fresh(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Map:
		return &MapRef{st.alloc(in.newMap(nil, true), t, name)}
	}
	in.nsym++
	return &Opaque{t, in.nsym}
}
func (in *Interp) freshBytes(st *State, name string, n *Aff) *Slice {
	in.nblob++
	id := st.alloc(&Bytes{&Seq{[]Piece{{k: pBlob, base: &Blob{in.nblob, name}, off: K(0), n: n}}}}, types.Typ[types.Uint8], name)
	return &Slice{id, K(0), n, n}
}
func (in *Interp) bytesOf(st *State, q *Seq, site string) *Slice {
	n := st.norm(q.size())
	id := st.alloc(&Bytes{q}, types.Typ[types.Uint8], site)
	return &Slice{id, K(0), n, n}
}

// roomy is a slice with the given content in a larger memory: unknown bytes follow within its capacity.
func (in *Interp) roomy(st *State, q *Seq, site string) *Slice {
	n := st.norm(q.size())
	l := in.symKey("beyond|"+site, "beyond "+site, 0, 1<<20)
	id := st.alloc(&Bytes{cat(q, &Seq{[]Piece{{k: pBlob, base: in.blobKey("beyond|" + site), off: K(0), n: S(l)}}})}, types.Typ[types.Uint8], site)
	return &Slice{id, K(0), n, st.norm(n.plus(S(l)))}
}

func (in *Interp) blobKey(key string) *Blob {
	if in.blobs == nil {
		in.blobs = map[string]*Blob{}
	}
	b := in.blobs[key]
	if b == nil {
		in.nblob++
		b = &Blob{in.nblob, key}
		in.blobs[key] = b
	}
	return b
}

func (in *Interp) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolV(constant.BoolVal(c.Value))
	case constant.String:
		return &Str{constSeq(constant.StringVal(c.Value))}
	case constant.Int:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return &Opaque{t: t}
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return cst(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return cst(int64(u))
		}
	}
	return &Opaque{t: t}
}

// linear gives an affine form of a table that is linear over the current domain.
func (st *State) affOf(v Val) *Aff {
	v = st.finVal(v)
	switch x := v.(type) {
	case *Num:
		return st.norm(x.e)
	case *Cond:
		switch st.decide(x) {
		case 1:
			return K(1)
		case 0:
			return K(0)
		}
		if st.must(x) {
			return K(1)
		}
		return K(0)
	case *Fin:
		d := st.mkDom(x.s)
		if d == nil {
			break
		}
		e, mn, mx := st.linear(x, d)
		if e != nil {
			return e
		}
		if d.count() <= 8 {
			// split on the table's values
			return st.affOf(st.pick(x))
		}
		s := st.in.symKey("finmat|"+valStr(x), "tab", mn, mx)
		return S(s)
	case *Opaque:
		lo, hi, _, _, ok := intInfo(x.t)
		if ok {
			return S(st.in.symKey(fmt.Sprintf("opqnum|%d", x.id), "opq", lo, hi))
		}
	}
	undecided("number from %s", valStr(v))
	return nil
}

// linear is slope*k + delta when a table over k is that; its smallest and largest value otherwise.
func (st *State) linear(x *Fin, d *domSet) (*Aff, int64, int64) {
	n, lin := 0, true
	var slope, delta, k0, mn, mx int64
	d.each(func(k int64) {
		i := k - x.base
		if i < 0 || i >= int64(len(x.tab)) || x.tab[i] == nil {
			return
		}
		c, ok := isConstNum(x.tab[i])
		if !ok {
			lin = false
			return
		}
		n++
		switch {
		case n == 1:
			k0, delta, mn, mx = k, c, c, c
			return
		case n == 2 && (c-delta)%(k-k0) == 0:
			slope = (c - delta) / (k - k0)
			delta -= slope * k0
		case n == 2 || c != slope*k+delta:
			lin = false
		}
		if c < mn {
			mn = c
		}
		if c > mx {
			mx = c
		}
	})
	if lin && n > 0 {
		return st.norm(S(x.s).scale(slope).addc(delta)), mn, mx
	}
	return nil, mn, mx
}

// pick splits a table until it denotes one value.
func (st *State) pick(v Val) Val {
	v = st.finVal(v)
	f, ok := v.(*Fin)
	if !ok {
		return v
	}
	d := st.mkDom(f.s)
	if d == nil {
		undecided("pick over wide symbol")
	}
	var first Val
	d.each(func(k int64) {
		if i := k - f.base; first == nil && i >= 0 && i < int64(len(f.tab)) {
			first = f.tab[i]
		}
	})
	if first == nil {
		st.dead = true
		return cst(0)
	}
	c := &Fin{f.s, f.base, make([]Val, len(f.tab))}
	for i, t := range f.tab {
		if t != nil {
			c.tab[i] = boolV(sameVal(t, first))
		}
	}
	if st.must(c) {
		return first
	}
	undecided("pick")
	return nil
}

func mapFin(f *Fin, g func(Val) Val) *Fin {
	r := &Fin{f.s, f.base, make([]Val, len(f.tab))}
	for i, t := range f.tab {
		if t != nil {
			r.tab[i] = g(t)
		}
	}
	return r
}

// asFin tabulates a value depending on one small symbol.
func (st *State) asFin(v Val) *Fin {
	v = st.finVal(v)
	if f, ok := v.(*Fin); ok {
		return f
	}
	if c, ok := v.(*Cond); ok {
		e := st.norm(c.e)
		s, _ := soleSym(e)
		if s == nil {
			return nil
		}
		d := st.mkDom(s)
		if d == nil {
			return nil
		}
		f := &Fin{s: s, base: d.base, tab: make([]Val, 256)}
		d.each(func(k int64) {
			x := e.t[0].k*k + e.c
			f.tab[k-d.base] = boolV(c.op == 'g' && x >= 0 || c.op == '=' && x == 0 || c.op == '!' && x != 0)
		})
		return f
	}
	n, ok := v.(*Num)
	if !ok {
		return nil
	}
	e := st.norm(n.e)
	s, k := soleSym(e)
	if s == nil {
		return nil
	}
	d := st.mkDom(s)
	if d == nil {
		return nil
	}
	f := &Fin{s: s, base: d.base, tab: make([]Val, 256)}
	d.each(func(x int64) { f.tab[x-d.base] = cst(e.c + k*x) })
	return f
}

func wrapConst(c int64, t types.Type) int64 {
	_, _, bits, uns, ok := intInfo(t)
	if !ok || bits == 64 || bits == 1 {
		return c
	}
	m := int64(1)<<bits - 1
	c &= m
	if !uns && c>>(bits-1)&1 == 1 {
		c -= 1 << bits
	}
	return c
}

// inRange keeps e when it surely fits the type, otherwise an unknown of the type.
func (st *State) inRange(e *Aff, t types.Type, key string) Val {
	e = st.norm(e)
	if e.isConst() {
		return cst(wrapConst(e.c, t))
	}
	lo, hi, bits, uns, ok := intInfo(t)
	if !ok {
		undecided("integer range of %s", t)
	}
	l, h := st.bounds(e)
	if bits == 64 && !uns {
		return &Num{e}
	}
	if l >= lo && h <= hi {
		return &Num{e}
	}
	if (l >= lo || st.nonneg(e.addc(-lo))) && (h <= hi || st.nonneg(K(hi).minus(e))) {
		return &Num{e}
	}
	if uns && bits <= 16 && (l >= 0 || st.nonneg(e)) { // truncation: low part
		return &Num{st.norm(e.minus(st.shr(e, bits).scale(1 << bits)))}
	}
	if uns && bits == 64 {
		return st.modular(e, t, key)
	}
	return &Num{S(st.in.symKey("wrap|"+key+"|"+types.TypeString(t, nil)+"|"+e.String(), "wrap", lo, hi))}
}

// modular is a 64-bit number of which only the residue e modulo 2^64 is known.
func (st *State) modular(e *Aff, t types.Type, key string) Val {
	e = st.residue(e)
	if lo, hi := st.bounds(e); lo >= 0 && hi <= inf && lo <= hi && hi < inf {
		return &Num{e}
	}
	s := st.in.symKey("wrap|"+key+"|"+types.TypeString(t, nil)+"|"+e.String(), "wrap", 0, inf)
	s.modOf = e
	return &Num{S(s)}
}

// residue replaces symbols of which the residue is known.
func (st *State) residue(e *Aff) *Aff {
	e = st.norm(e)
	r := K(e.c)
	for _, t := range e.t {
		if t.s.modOf != nil {
			r = r.plus(st.residue(t.s.modOf).scale(t.k))
		} else {
			r = r.add(S(t.s), t.k)
		}
	}
	return st.norm(r)
}

func concreteOp(op token.Token, a, b int64, t types.Type) (int64, bool) {
	var r int64
	switch op {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		r = a / b
	case token.REM:
		if b == 0 {
			return 0, false
		}
		r = a % b
	case token.AND:
		r = a & b
	case token.OR:
		r = a | b
	case token.XOR:
		r = a ^ b
	case token.AND_NOT:
		r = a &^ b
	case token.SHL:
		if b > 63 {
			r = 0
		} else {
			r = a << uint(b)
		}
	case token.SHR:
		if b > 63 {
			b = 63
		}
		r = a >> uint(b)
	default:
		return 0, false
	}
	return wrapConst(r, t), true
}

// constVal replaces a number whose value is settled by a constant.
func (st *State) constVal(v Val) Val {
	v = st.finVal(v)
	if n, ok := v.(*Num); ok && !n.e.isConst() {
		if e := st.norm(n.e); e.isConst() {
			return cst(e.c)
		}
	}
	return v
}

func (st *State) numOp(op token.Token, x, y Val, t types.Type) Val {
	x, y = st.constVal(x), st.constVal(y)
	ca, oka := isConstNum(x)
	cb, okb := isConstNum(y)
	if oka && okb {
		r, ok := concreteOp(op, ca, cb, t)
		if !ok {
			undecided("constant operation %s", op)
		}
		return cst(r)
	}
	if n, ok := x.(*Num); ok && op == token.OR && okb && cb == 1 && st.nonneg(n.e) {
		return &Num{st.norm(st.shr(n.e, 1).scale(2).addc(1))}
	}
	linear := op == token.ADD || op == token.SUB || op == token.SHL && okb || op == token.MUL && (oka || okb)
	_, finx := x.(*Fin)
	_, finy := y.(*Fin)
	if finx || finy || !linear {
		// exact table when both depend on one small symbol
		if oka {
			if f := st.asFin(y); f != nil {
				return st.tabOp(op, nil, x, f, t)
			}
		} else if okb {
			if f := st.asFin(x); f != nil {
				return st.tabOp(op, f, y, nil, t)
			}
		} else {
			fx, fy := st.asFin(x), st.asFin(y)
			if fx != nil && fy != nil && fx.s == fy.s {
				r := &Fin{fx.s, fx.base, make([]Val, len(fx.tab))}
				for i, a := range fx.tab {
					j := int64(i) + fx.base - fy.base
					if a != nil && j >= 0 && j < int64(len(fy.tab)) && fy.tab[j] != nil {
						r.tab[i] = st.numOp(op, a, fy.tab[j], t)
					}
				}
				return st.finVal(r)
			}
			if fx != nil && fy != nil && !linear {
				// split on the smaller domain
				dx, dy := st.mkDom(fx.s), st.mkDom(fy.s)
				if dx.count() <= dy.count() && dx.count() <= 16 {
					return st.numOp(op, st.pick(fx), y, t)
				} else if dy.count() <= 16 {
					return st.numOp(op, x, st.pick(fy), t)
				}
			}
		}
	}
	a, b := st.affOf(x), st.affOf(y)
	key := op.String()
	switch op {
	case token.ADD:
		return st.inRange(a.plus(b), t, key)
	case token.SUB:
		return st.inRange(a.minus(b), t, key)
	case token.MUL:
		if a.isConst() {
			return st.inRange(b.scale(a.c), t, key)
		}
		if b.isConst() {
			return st.inRange(a.scale(b.c), t, key)
		}
	case token.SHL:
		if b.isConst() && b.c >= 0 && b.c < 40 {
			return st.inRange(a.scale(1<<uint(b.c)), t, key)
		}
	case token.SHR:
		if b.isConst() && b.c >= 0 && b.c < 63 && st.nonneg(a) {
			return &Num{st.shr(a, uint(b.c))}
		}
	case token.QUO:
		if b.isConst() && b.c > 0 {
			if st.must(&Cond{'g', a}) {
				return &Num{st.div(a, b.c)}
			}
			return &Num{st.norm(st.div(a.scale(-1), b.c).scale(-1))}
		}
	case token.REM:
		if b.isConst() && b.c > 0 {
			if st.must(&Cond{'g', a}) {
				return &Num{st.norm(a.minus(st.div(a, b.c).scale(b.c)))}
			}
			return &Num{st.norm(a.plus(st.div(a.scale(-1), b.c).scale(b.c)))}
		}
	case token.AND:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && st.nonneg(a) {
			m := b.c
			if m >= 0 && m&(m+1) == 0 {
				k := uint(0)
				for int64(1)<<k-1 != m {
					k++
				}
				return &Num{st.norm(a.minus(st.shr(a, k).scale(1 << k)))}
			}
		}
	case token.OR, token.XOR:
		if r := st.disjointOr(a, b); r != nil {
			return st.inRange(r, t, key)
		}
		if r := st.disjointOr(b, a); r != nil {
			return st.inRange(r, t, key)
		}
	}
	lo, hi, _, _, _ := intInfo(t)
	return &Num{S(st.in.symKey(fmt.Sprintf("op|%s|%s|%s|%s", op, a, b, t), "op", lo, hi))}
}

// disjointOr: a multiple of 2^k, 0 <= b < 2^k.
func (st *State) disjointOr(a, b *Aff) *Aff {
	k := twos(a)
	if k > 60 {
		k = 60
	}
	if k == 0 {
		return nil
	}
	if al, _ := st.bounds(a); al < 0 && !st.nonneg(a) {
		return nil
	}
	max := int64(1)<<k - 1
	if l, h := st.bounds(b); l >= 0 && h <= max {
		return a.plus(b)
	}
	// b is 2^n times a smaller number
	n := twos(b)
	small := &Aff{c: b.c >> n}
	for _, t := range b.t {
		small.t = append(small.t, term{t.s, t.k >> n})
	}
	if st.decideAff('g', small) == 1 && st.decideAff('g', K(max>>n).minus(small)) == 1 {
		return a.plus(b)
	}
	return nil
}

// twos is the largest n with all parts of a multiples of 2^n.
func twos(a *Aff) uint {
	n := uint(bits.TrailingZeros64(uint64(a.c)))
	for _, t := range a.t {
		if m := uint(bits.TrailingZeros64(uint64(t.k))); m < n {
			n = m
		}
	}
	return n
}

func (st *State) tabOp(op token.Token, fx *Fin, c Val, fy *Fin, t types.Type) Val {
	if fx != nil {
		return st.finVal(mapFin(fx, func(v Val) Val { return st.numOp(op, v, c, t) }))
	}
	return st.finVal(mapFin(fy, func(v Val) Val { return st.numOp(op, c, v, t) }))
}

// cmp compares two numbers.
func (st *State) cmp(op string, x, y Val) Val {
	x, y = st.finVal(x), st.finVal(y)
	_, fx := x.(*Fin)
	_, fy := y.(*Fin)
	_, cx := x.(*Cond)
	_, cy := y.(*Cond)
	if fx || fy || cx || cy {
		a, b := st.asFin(x), st.asFin(y)
		c1, ok1 := isConstNum(x)
		c2, ok2 := isConstNum(y)
		switch {
		case a != nil && ok2:
			return st.finVal(mapFin(a, func(v Val) Val { return st.cmp(op, v, cst(c2)) }))
		case b != nil && ok1:
			return st.finVal(mapFin(b, func(v Val) Val { return st.cmp(op, cst(c1), v) }))
		case a != nil && b != nil && a.s == b.s:
			r := &Fin{a.s, a.base, make([]Val, len(a.tab))}
			for i, v := range a.tab {
				j := int64(i) + a.base - b.base
				if v != nil && j >= 0 && j < int64(len(b.tab)) && b.tab[j] != nil {
					r.tab[i] = st.cmp(op, v, b.tab[j])
				}
			}
			return st.finVal(r)
		}
	}
	d := st.norm(st.affOf(x).minus(st.affOf(y)))
	var c *Cond
	switch op {
	case "==":
		c = &Cond{'=', d}
	case "!=":
		c = &Cond{'!', d}
	case "<":
		c = &Cond{'g', d.scale(-1).addc(-1)}
	case "<=":
		c = &Cond{'g', d.scale(-1)}
	case ">":
		c = &Cond{'g', d.addc(-1)}
	case ">=":
		c = &Cond{'g', d}
	}
	switch st.decide(c) {
	case 1:
		return cst(1)
	case 0:
		return cst(0)
	}
	return c
}

func (st *State) not(v Val) Val {
	v = st.finVal(v)
	switch x := v.(type) {
	case *Cond:
		return negate(x)
	case *Fin:
		return mapFin(x, func(v Val) Val { return st.not(v) })
	case *Num:
		if x.e.isConst() {
			return boolV(x.e.c == 0)
		}
		return &Cond{'=', x.e}
	}
	undecided("negation of %s", valStr(v))
	return nil
}

// equal compares two values of one type; result is a boolean value.
func (st *State) equal(x, y Val) Val {
	x, y = st.finVal(x), st.finVal(y)
	if _, ok := x.(*Fin); ok {
		if _, isN := y.(*Num); !isN {
			if _, isF := y.(*Fin); !isF {
				x = st.pick(x)
			}
		}
	}
	switch a := x.(type) {
	case *Num, *Fin, *Cond:
		return st.cmp("==", x, y)
	case *Str:
		b, ok := y.(*Str)
		if !ok {
			break
		}
		switch st.seqEq(a.q, b.q) {
		case 1:
			return cst(1)
		case 0:
			return cst(0)
		}
		if c, ok := st.normSeq(a.q).constStr(); ok && len(c) <= 16 {
			return boolV(st.mustContentEq(a.q, b.q))
		}
		if c, ok := st.normSeq(b.q).constStr(); ok && len(c) <= 16 {
			return boolV(st.mustContentEq(a.q, b.q))
		}
		return st.eqKey(a.q, b.q)
	case *Iface:
		switch b := y.(type) {
		case *Iface:
			if a.t == nil || b.t == nil {
				return boolV(a.t == nil && b.t == nil)
			}
			if !types.Identical(a.t, b.t) {
				return cst(0)
			}
			return st.equal(a.v, b.v)
		case *Opaque:
			return st.opqEq(b, a)
		}
	case *Opaque:
		return st.opqEq(a, y)
	case *Ptr:
		if b, ok := y.(*Ptr); ok {
			if a.obj == 0 || b.obj == 0 {
				return boolV(a.obj == b.obj)
			}
			if a.obj != b.obj {
				return cst(0)
			}
			if len(a.path) == len(b.path) && a.idx == nil && b.idx == nil {
				for i := range a.path {
					if a.path[i] != b.path[i] {
						return cst(0)
					}
				}
				return cst(1)
			}
		}
		if b, ok := y.(*Opaque); ok {
			return st.opqEq(b, a)
		}
	case *Slice:
		if b, ok := y.(*Slice); ok && (a.obj == 0 || b.obj == 0) {
			return boolV(a.obj == b.obj)
		}
	case *MapRef:
		if b, ok := y.(*MapRef); ok && (a.obj == 0 || b.obj == 0) {
			return boolV(a.obj == b.obj)
		}
	case *Func:
		if b, ok := y.(*Func); ok {
			an, bn := a.fn == nil && a.ext == "", b.fn == nil && b.ext == ""
			if an || bn {
				return boolV(an && bn)
			}
		}
	case *ErrNew:
		if b, ok := y.(*ErrNew); ok {
			return boolV(a.id == b.id)
		}
	case *StructV:
		if b, ok := y.(*StructV); ok {
			for i := range a.f {
				if !st.must(st.equal(a.f[i], b.f[i])) {
					return cst(0)
				}
			}
			return cst(1)
		}
	}
	undecided("comparison of %s and %s", valStr(x), valStr(y))
	return nil
}
func (st *State) eqKey(a, b *Seq) Val {
	k1, k2 := st.seqKey(a), st.seqKey(b)
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return st.in.boolKey("eq|"+k1+"|"+k2, "streq")
}
func (st *State) opqEq(a *Opaque, b Val) Val {
	k := valStr(b)
	switch y := b.(type) {
	case *Iface:
		if y.t == nil {
			k = "nil"
		}
	case *Ptr:
		if y.obj == 0 {
			k = "nil"
		}
	case *Slice:
		if y.obj == 0 {
			k = "nil"
		}
	case *Opaque:
		if y.id == a.id {
			return cst(1)
		}
	}
	return st.in.boolKey(fmt.Sprintf("opqeq|%d|%s", a.id, k), fmt.Sprintf("opq%d==%s", a.id, k))
}

// convert between types.
func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	v = st.finVal(v)
	if _, _, _, _, ok := intInfo(from); ok {
		if isString(to) {
			if c, ok := isConstNum(v); ok {
				return &Str{constSeq(string(rune(c)))}
			}
			undecided("rune to string")
		}
		if _, _, _, _, ok := intInfo(to); !ok {
			return in.fresh(st, to, "conv")
		}
		if f, ok := v.(*Fin); ok {
			return st.finVal(mapFin(f, func(x Val) Val { return in.convert(st, x, from, to) }))
		}
		if n, ok := v.(*Num); ok {
			if c, ok := isConstNum(n); ok {
				if _, _, bits, uns, _ := intInfo(to); bits == 64 && uns && c < 0 {
					return cst(c)
				}
			}
			return st.inRange(n.e, to, "conv")
		}
		return &Num{st.affOf(v)}
	}
	if isString(from) && isByteSlice(to) {
		return in.bytesOf(st, st.content(v), "[]byte(string)")
	}
	if isByteSlice(from) && isString(to) {
		return &Str{st.content(v)}
	}
	if isString(from) && isString(to) {
		return v
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	if b, ok := under(to).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return in.fresh(st, to, "float")
	}
	if b, ok := under(from).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return in.fresh(st, to, "fromfloat")
	}
	undecided("conversion %s to %s", from, to)
	return nil
}
