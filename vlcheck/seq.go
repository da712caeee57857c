package main

import (
	"fmt"
	"strings"
)

// finVal resolves a table whose symbol is known.
func (st *State) finVal(v Val) Val {
	f, ok := v.(*Fin)
	if !ok {
		return v
	}
	e := st.norm(S(f.s))
	if e.isConst() {
		i := e.c - f.base
		if i >= 0 && i < int64(len(f.tab)) && f.tab[i] != nil {
			return f.tab[i]
		}
		st.dead = true
		return cst(0)
	}
	if e.single() != f.s && len(e.t) == 1 && e.t[0].k == 1 {
		// s = s' + c
		f = &Fin{e.t[0].s, f.base - e.c, f.tab}
	}
	// constant over the remaining domain?
	d := st.mkDom(f.s)
	if d == nil {
		return f
	}
	var first Val
	same := true
	d.each(func(x int64) {
		i := x - f.base
		if i < 0 || i >= int64(len(f.tab)) || f.tab[i] == nil {
			return
		}
		if first == nil {
			first = f.tab[i]
		} else if same && !sameVal(first, f.tab[i]) {
			same = false
		}
	})
	if first != nil && same {
		return first
	}
	return f
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Num:
		y, ok := b.(*Num)
		return ok && affEq(x.e, y.e)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Func:
		y, ok := b.(*Func)
		return ok && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0 && x.ext == y.ext
	case *MapRef:
		y, ok := b.(*MapRef)
		return ok && x.obj == y.obj
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		s1, o1 := x.q.constStr()
		s2, o2 := y.q.constStr()
		return o1 && o2 && s1 == s2
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.(*Iface)
		return ok && x.t == y.t && (x.t == nil || sameVal(x.v, y.v))
	}
	return false
}

// normSeq drops empty pieces, merges neighbours and resolves known values.
func (st *State) normSeq(q *Seq) *Seq {
	r := &Seq{}
	for _, p := range q.p {
		switch p.k {
		case pNum:
			p.v = st.finVal(p.v)
			if n, ok := p.v.(*Num); ok {
				p.v = &Num{st.norm(n.e)}
			} else if f, ok := p.v.(*Fin); ok {
				if d := st.mkDom(f.s); d != nil {
					if e, _, _ := st.linear(f, d); e != nil {
						p.v = &Num{e}
					} else if e := st.digits(f, d); e != nil {
						p.v = &Num{e}
					}
				}
			}
			if c, ok := isConstNum(p.v); ok {
				b := make([]byte, p.w)
				for i := range b {
					b[i] = byte(uint64(c) >> (8 * uint(p.w-1-i)))
				}
				p = Piece{k: pConst, b: b}
			}
		case pUv:
			if n, ok := p.v.(*Num); ok {
				p.v = &Num{st.norm(n.e)}
			}
			if c, ok := isConstNum(p.v); ok {
				p = Piece{k: pConst, b: uvBytes(uint64(c))}
			}
		case pBlob:
			p.n, p.off = st.norm(p.n), st.norm(p.off)
			if p.n.isConst() && p.n.c == 0 {
				continue
			}
		case pZero:
			p.n = st.norm(p.n)
			if p.n.isConst() && p.n.c <= 64 {
				p = Piece{k: pConst, b: make([]byte, p.n.c)}
			}
		}
		if p.k == pConst && len(p.b) == 0 {
			continue
		}
		if n := len(r.p); n > 0 {
			l := &r.p[n-1]
			if l.k == pConst && p.k == pConst {
				l.b = append(append([]byte(nil), l.b...), p.b...)
				continue
			}
			if l.k == pBlob && p.k == pBlob && l.base == p.base && affEq(st.norm(l.off.plus(l.n)), p.off) {
				l.n = st.norm(l.n.plus(p.n))
				continue
			}
			// the bytes of a variable byte integer, from the last one backwards
			if l.k == pNum && l.w == 1 && (p.k == pNum && p.w == 1 || p.k == pUv) {
				if u, ok := st.joinUv(*l, p); ok {
					r.p = r.p[:n-1]
					for p = u; len(r.p) > 0; {
						n := len(r.p) - 1
						if u, ok = st.joinUv(r.p[n], p); !ok {
							break
						}
						p, r.p = u, r.p[:n]
					}
					r.p = append(r.p, p)
					continue
				}
			}
			// hi, lo bytes of the same number
			if l.k == pNum && p.k == pNum && l.w+p.w <= 8 && !uvStep(*l, p) {
				if a, ok := l.v.(*Num); ok {
					if b, ok := p.v.(*Num); ok {
						if beStep(a.e, b.e, p.w) {
							s := st.norm(a.e.scale(1 << (8 * uint(p.w))).plus(b.e))
							*l = Piece{k: pNum, v: &Num{s}, w: l.w + p.w}
							continue
						}
					}
				}
			}
		}
		r.p = append(r.p, p)
	}
	return r
}

// beStep: a quotient in the high part a is what the low part b of w bytes lacks.
func beStep(a, b *Aff, w int) bool {
	for _, t := range a.t {
		if t.s.shrOf != nil {
			for _, u := range b.t {
				if u.s == t.s && u.k == -satMul(t.k, 1<<(8*uint(w))) {
					return true
				}
			}
		}
	}
	return false
}

// uvStep: the low byte of d is x-128*d+128, the next digits are d.
func uvStep(l, p Piece) bool {
	a, ok1 := l.v.(*Num)
	b, ok2 := p.v.(*Num)
	if !ok1 || !ok2 || l.k != pNum || l.w != 1 {
		return false
	}
	for _, t := range a.e.t {
		if t.k == -128 && t.s.shrOf != nil {
			for _, u := range b.e.t {
				if u.s == t.s && u.k == 1 {
					return true
				}
			}
		}
	}
	return false
}

// joinUv puts a byte before the rest of a variable byte integer.
func (st *State) joinUv(l, p Piece) (Piece, bool) {
	if !uvStep(l, p) {
		return p, false
	}
	a, b := l.v.(*Num).e, p.v.(*Num).e
	x := st.norm(a.addc(-128).plus(b.scale(128)))
	if len(x.t) >= len(a.t)+len(b.t) || p.w > 3 || !st.entails(a.addc(-128)) || !st.entails(K(255).minus(a)) || !st.entails(b.addc(-1)) {
		return p, false
	}
	if p.k == pNum && !st.entails(K(127).minus(b)) {
		return p, false
	}
	return Piece{k: pUv, v: &Num{x}, w: p.w + 1}, true
}

// digits writes a table over a quotient q as q/128 or q%128 plus a constant, when it is that.
func (st *State) digits(f *Fin, d *domSet) *Aff {
	if f.s.shrOf == nil {
		return nil
	}
	first := true
	var c0 [2]int64
	ok := [2]bool{true, true}
	d.each(func(k int64) {
		i := k - f.base
		if i < 0 || i >= int64(len(f.tab)) || f.tab[i] == nil {
			return
		}
		c, isC := isConstNum(f.tab[i])
		for j, x := range [2]int64{k / 128, k % 128} {
			if first {
				c0[j] = c - x
			}
			ok[j] = ok[j] && isC && k >= 0 && c-x == c0[j]
		}
		first = false
	})
	if first || !ok[0] && !ok[1] {
		return nil
	}
	q := st.div(S(f.s), 128)
	if ok[0] {
		return st.norm(q.addc(c0[0]))
	}
	return st.norm(S(f.s).minus(q.scale(128)).addc(c0[1]))
}
func uvBytes(c uint64) []byte {
	var b []byte
	for c >= 0x80 {
		b = append(b, byte(c)|0x80)
		c >>= 7
	}
	return append(b, byte(c))
}

// bytePart gives byte i (0 = most significant) of a w byte big endian number.
func (st *State) bytePart(e *Aff, w, i int) Val {
	e = st.norm(e)
	if e.isConst() {
		return cst(int64(byte(uint64(e.c) >> (8 * uint(w-1-i)))))
	}
	if w == 1 {
		return &Num{e}
	}
	if i == w-1 {
		return &Num{st.lowByte(e)}
	}
	return st.bytePart(st.shr(e, 8), w-1, i)
}

// lowByte is e mod 256 as a symbol tied by e = 256*floor(e/256) + low.
func (st *State) lowByte(e *Aff) *Aff {
	h := st.shr(e, 8)
	return st.norm(e.minus(h.scale(256)))
}

// shr is floor(e / 2^k) for e >= 0.
func (st *State) shr(e *Aff, k uint) *Aff { return st.div(e, 1<<k) }

// div is floor(e / d) for e >= 0, d > 0.
func (st *State) div(e *Aff, d int64) *Aff {
	e = st.norm(e)
	if d == 1 {
		return e
	}
	if e.isConst() {
		return K(floorDiv(e.c, d))
	}
	if len(e.t) == 1 && e.t[0].s.bitsOf != nil {
		lo, hi := st.bounds(e)
		if hi-lo > 400 {
			undecided("quotient of %s", e)
		}
		for q := floorDiv(lo, d); q < floorDiv(hi, d); q++ {
			if st.must(&Cond{'g', K(d*(q+1) - 1).minus(e)}) {
				return K(q)
			}
		}
		return K(floorDiv(hi, d))
	}
	if s := e.single(); s != nil && s.shrOf != nil && satMul(s.shrD, d) < inf {
		r := st.div2(s.shrOf, s.shrD*d)
		if x := r.single(); x != nil && x.shrOf != nil {
			y := e.minus(r.scale(d))
			st.factOnce(y)
			st.factOnce(K(d - 1).minus(y))
			if lo, hi := st.bounds(e); lo >= 0 {
				st.setRangeQuiet(x, floorDiv(lo, d), floorDiv(hi, d))
			}
		}
		return st.norm(r)
	}
	return st.div2(e, d)
}
func (st *State) div2(e *Aff, d int64) *Aff {
	// exact division of the multiple part
	q, r := K(floorDiv(e.c, d)), K(e.c-floorDiv(e.c, d)*d)
	for _, t := range e.t {
		if t.k%d == 0 {
			q = q.add(S(t.s), t.k/d)
		} else {
			r = r.add(S(t.s), t.k)
		}
	}
	if lo, hi := st.bounds(r); lo >= 0 && hi < d {
		return st.norm(q)
	} else if lo >= 0 && (len(q.t) > 0 || q.c != 0) {
		return st.norm(q.plus(st.div(r, d)))
	}
	s := st.in.symKey(fmt.Sprintf("div|%s|%d", e, d), "div", -inf, inf)
	if s.shrOf == nil {
		s.shrOf, s.shrD = e, d
	}
	lo, hi := st.bounds(e)
	if st.nonneg(e) && lo < 0 {
		lo = 0
	}
	st.setRangeQuiet(s, floorDiv(lo, d), floorDiv(hi, d))
	// 0 <= e - d s <= d-1
	x := e.minus(S(s).scale(d))
	st.factOnce(x)
	st.factOnce(K(d - 1).minus(x))
	return st.norm(S(s))
}
func (st *State) setRangeQuiet(s *Sym, lo, hi int64) {
	l, h := st.rng(s)
	if lo > l {
		l = lo
	}
	if hi < h {
		h = hi
	}
	if l > h {
		st.dead = true
		return
	}
	st.iv[s] = [2]int64{l, h}
	if l == h {
		st.ver++
	}
}
func (st *State) factOnce(e *Aff) {
	for _, f := range st.facts {
		if affEq(f, e) {
			return
		}
	}
	st.facts = append(st.facts, e)
}

// splitAt divides q at offset off (0 <= off <= size), forking on demand.
func (st *State) splitAt(q *Seq, off *Aff) (*Seq, *Seq) {
	rest := st.norm(off)
	for i := range q.p {
		if rest.isConst() && rest.c == 0 {
			return &Seq{q.p[:i:i]}, &Seq{q.p[i:]}
		}
		p := q.p[i]
		sz := st.norm(p.size())
		if (p.k == pBlob || p.k == pZero) && st.decideAff('g', rest) == 1 && st.decideAff('g', sz.minus(rest)) == 1 {
			a, b := st.cutPiece(p, rest) // either part may be empty
			return cat(&Seq{q.p[:i:i]}, a), cat(b, &Seq{q.p[i+1:]})
		}
		// at or beyond the end of this piece?
		if st.mustGE(rest, sz) {
			rest = st.norm(rest.minus(sz))
			continue
		}
		if !rest.isConst() && st.decideAff('=', rest) != 0 {
			if st.mustEQ(rest, K(0)) {
				return &Seq{q.p[:i:i]}, &Seq{q.p[i:]}
			}
		}
		a, b := st.cutPiece(p, rest)
		return cat(&Seq{q.p[:i:i]}, a), cat(b, &Seq{q.p[i+1:]})
	}
	if d := st.norm(rest); d.isConst() && d.c == 0 || st.decideAff('=', d) == 1 {
		return q, &Seq{}
	}
	undecided("split of %s at %s", q, off)
	return nil, nil
}

// cutPiece cuts a piece at 0 < at < size.
func (st *State) cutPiece(p Piece, at *Aff) (*Seq, *Seq) {
	switch p.k {
	case pConst:
		if at.isConst() {
			return &Seq{[]Piece{{k: pConst, b: p.b[:at.c]}}}, &Seq{[]Piece{{k: pConst, b: p.b[at.c:]}}}
		}
		// enumerate
		for i := 1; i < len(p.b); i++ {
			if st.mustEQ(at, K(int64(i))) {
				return &Seq{[]Piece{{k: pConst, b: p.b[:i]}}}, &Seq{[]Piece{{k: pConst, b: p.b[i:]}}}
			}
		}
	case pBlob:
		return &Seq{[]Piece{{k: pBlob, base: p.base, off: p.off, n: at}}},
			&Seq{[]Piece{{k: pBlob, base: p.base, off: st.norm(p.off.plus(at)), n: st.norm(p.n.minus(at))}}}
	case pZero:
		return &Seq{[]Piece{{k: pZero, n: at}}}, &Seq{[]Piece{{k: pZero, n: st.norm(p.n.minus(at))}}}
	case pNum:
		for i := 1; i < p.w; i++ {
			if st.mustEQ(at, K(int64(i))) {
				n, ok := p.v.(*Num)
				if !ok {
					undecided("cut of table number")
				}
				lo := st.norm(n.e)
				hi := st.shr(lo, uint(8*(p.w-i)))
				low := st.norm(lo.minus(hi.scale(1 << uint(8*(p.w-i)))))
				return &Seq{[]Piece{{k: pNum, v: &Num{hi}, w: i}}}, &Seq{[]Piece{{k: pNum, v: &Num{low}, w: p.w - i}}}
			}
		}
	case pUv:
		// expand into bytes
		n, ok := p.v.(*Num)
		if !ok {
			undecided("cut of table varint")
		}
		var ps []Piece
		rem := st.norm(n.e)
		for i := 0; i < p.w; i++ {
			hi := st.shr(rem, 7)
			b := st.norm(rem.minus(hi.scale(128)))
			if i < p.w-1 {
				b = b.addc(128)
			} else {
				b = rem
			}
			ps = append(ps, Piece{k: pNum, v: &Num{st.norm(b)}, w: 1})
			rem = hi
		}
		return st.splitAt(&Seq{ps}, at)
	}
	undecided("cut of piece")
	return nil, nil
}

// sub extracts n bytes from off.
func (st *State) sub(q *Seq, off, n *Aff) *Seq {
	_, b := st.splitAt(q, off)
	a, _ := st.splitAt(b, n)
	return st.normSeq(a)
}

// byteAt reads one byte.
func (st *State) byteAt(q *Seq, off *Aff) Val {
	// symbolic index into constant data: a table
	off = st.norm(off)
	if s, k := soleSym(off); s != nil && k == 1 && len(q.p) == 1 && q.p[0].k == pConst {
		if d := st.mkDom(s); d != nil {
			f := &Fin{s: s, base: d.base, tab: make([]Val, 256)}
			d.each(func(v int64) {
				i := v + off.c
				if i >= 0 && i < int64(len(q.p[0].b)) {
					f.tab[v-d.base] = cst(int64(q.p[0].b[i]))
				}
			})
			return st.finVal(f)
		}
	}
	rest := off
	for i := range q.p {
		p := q.p[i]
		sz := st.norm(p.size())
		if st.mustGE(rest, sz) {
			rest = st.norm(rest.minus(sz))
			continue
		}
		switch {
		case p.k == pBlob:
			return st.pieceByte(Piece{k: pBlob, base: p.base, off: st.norm(p.off.plus(rest)), n: K(1)})
		case p.k == pZero:
			return cst(0)
		case p.k == pConst && rest.isConst():
			return cst(int64(p.b[rest.c]))
		case p.w == 1 && p.k != pConst:
			return st.pieceByte(p)
		}
		_, b := st.splitAt(&Seq{[]Piece{p}}, rest)
		b2, _ := st.splitAt(b, K(1))
		if len(b2.p) != 1 {
			undecided("byte at %s of %s", off, q)
		}
		return st.pieceByte(b2.p[0])
	}
	undecided("byte at %s of %s", off, q)
	return nil
}
func (st *State) pieceByte(p Piece) Val {
	switch p.k {
	case pConst:
		return cst(int64(p.b[0]))
	case pNum:
		return st.finVal(p.v)
	case pZero:
		return cst(0)
	case pUv:
		return p.v
	case pBlob:
		s := st.in.symKey("byte|"+st.blobKey(p), p.base.name+"["+p.off.String()+"]", 0, 255)
		if s.byteOf == nil {
			s.byteOf, s.byteOff = p.base, st.norm(p.off)
			st.in.byteSyms = append(st.in.byteSyms, s)
		}
		// other names of this byte, from reads at positions that were known less exactly
		at := st.norm(p.off)
		for _, t := range st.in.byteSyms {
			if t != s && t.byteOf == p.base && affEq(st.norm(t.byteOff), at) {
				if e := st.norm(S(t).minus(S(s))); !e.isConst() || e.c != 0 {
					st.assumeAff('=', e)
				}
			}
		}
		return &Num{st.norm(S(s))}
	}
	undecided("byte of piece")
	return nil
}

// aliasBytes lists the symbols that name byte off of a content: one byte gets several names when
// its position was known less exactly at an earlier read.
func (st *State) aliasBytes(q *Seq, off *Aff) (r []*Sym) {
	if len(q.p) != 1 || q.p[0].k != pBlob {
		undecided("bytes of %s", q)
	}
	at := st.norm(q.p[0].off.plus(off))
	for _, s := range st.in.byteSyms {
		if s.byteOf == q.p[0].base && affEq(st.norm(s.byteOff), at) {
			r = append(r, s)
		}
	}
	return r
}
func (st *State) blobKey(p Piece) string { return fmt.Sprintf("%d|%s", p.base.id, st.norm(p.off)) }

// beNum reads a w byte big endian number at the start of q (which has at least w bytes).
func (st *State) beNum(q *Seq, off *Aff, w int) Val {
	a := st.sub(q, off, K(int64(w)))
	if len(a.p) == 1 && a.p[0].k == pNum && a.p[0].w == w {
		return st.finVal(a.p[0].v)
	}
	r := K(0)
	for i := 0; i < w; i++ {
		v := st.byteAt(a, K(int64(i)))
		n, ok := v.(*Num)
		if !ok {
			n = &Num{st.affOf(v)}
		}
		r = r.scale(256).plus(n.e)
	}
	return &Num{st.norm(r)}
}

// write replaces n bytes at off by w.
func (st *State) write(obj int, off *Aff, w *Seq) {
	bs, ok := st.get(obj).(*Bytes)
	if !ok {
		undecided("byte write to %s", valStr(st.get(obj)))
	}
	n := st.norm(w.size())
	if n.isConst() && n.c == 0 {
		return
	}
	a, rest := st.splitAt(bs.q, off)
	_, c := st.splitAt(rest, n)
	st.set(obj, &Bytes{st.normSeq(cat(a, w, c))})
}

// arrSeq is the content of a slice of an array that is kept element by element; nil if unknown.
func (st *State) arrSeq(a *ArrV, x *Slice) *Seq {
	off, n := st.norm(x.off), st.norm(x.len)
	if !off.isConst() || !n.isConst() || off.c+n.c > int64(len(a.e)) {
		return nil
	}
	q := &Seq{}
	for _, e := range a.e[off.c : off.c+n.c] {
		switch e.(type) {
		case *Num, *Fin:
			q = cat(q, byteSeq(e))
		default:
			return nil
		}
	}
	return q
}

// content of a byte slice.
func (st *State) content(v Val) *Seq {
	switch x := v.(type) {
	case *Str:
		return st.normSeq(x.q)
	case *Slice:
		if x.obj == 0 {
			return &Seq{}
		}
		bs, ok := st.get(x.obj).(*Bytes)
		if !ok {
			if _, ok := st.get(x.obj).(*OpaqueArr); ok {
				st.in.nblob++
				b := &Blob{st.in.nblob, "opq"}
				return &Seq{[]Piece{{k: pBlob, base: b, off: K(0), n: x.len}}}
			}
			if a, ok := st.get(x.obj).(*ArrV); ok {
				if q := st.arrSeq(a, x); q != nil {
					return q
				}
			}
			undecided("content of %s", valStr(v))
		}
		if l := st.norm(x.len); l.isConst() && l.c == 0 {
			return &Seq{}
		}
		return st.sub(bs.q, x.off, x.len)
	case *Opaque:
		st.in.nblob++
		b := &Blob{st.in.nblob, fmt.Sprintf("opq%d", x.id)}
		n := st.in.symKey(fmt.Sprintf("opqlen|%d", x.id), "opqlen", 0, 1<<40)
		return &Seq{[]Piece{{k: pBlob, base: b, off: K(0), n: S(n)}}}
	}
	undecided("content of %s", valStr(v))
	return nil
}

// seqKey is a canonical text of a content; equal text means equal content.
func (st *State) seqKey(q *Seq) string {
	q = st.normSeq(q)
	var b strings.Builder
	for _, p := range q.p {
		switch p.k {
		case pConst:
			fmt.Fprintf(&b, "c%x.", p.b)
		case pNum:
			fmt.Fprintf(&b, "n%d(%s).", p.w, valStr(p.v))
		case pUv:
			fmt.Fprintf(&b, "u(%s).", valStr(p.v))
		case pZero:
			fmt.Fprintf(&b, "z(%s).", p.n)
		case pBlob:
			fmt.Fprintf(&b, "b%d(%s,%s).", p.base.id, p.off, p.n)
		}
	}
	return b.String()
}

// seqEq: 1 equal, 0 different, -1 unknown.
func (st *State) seqEq(a, b *Seq) int {
	a, b = st.normSeq(a), st.normSeq(b)
	if st.decideAff('=', a.size().minus(b.size())) == 0 {
		return 0
	}
	if st.seqKey(a) == st.seqKey(b) {
		return 1
	}
	// compare fixed-size prefixes
	for len(a.p) > 0 && len(b.p) > 0 {
		p, q := a.p[0], b.p[0]
		ps, qs := st.norm(p.size()), st.norm(q.size())
		if p.k == pBlob && q.k == pBlob && p.base == q.base && affEq(st.norm(p.off), st.norm(q.off)) && st.decideAff('=', ps.minus(qs)) == 1 {
			a, b = &Seq{a.p[1:]}, &Seq{b.p[1:]}
			continue
		}
		if p.k == pUv && q.k == pUv && p.w == q.w {
			x, ok1 := p.v.(*Num)
			y, ok2 := q.v.(*Num)
			if ok1 && ok2 && st.decideAff('=', x.e.minus(y.e)) == 1 {
				a, b = &Seq{a.p[1:]}, &Seq{b.p[1:]}
				continue
			}
			return -1
		}
		if !ps.isConst() || !qs.isConst() {
			return -1
		}
		n := ps.c
		if qs.c < n {
			n = qs.c
		}
		// byte by byte
		unk := false
		for i := int64(0); i < n; i++ {
			x, y := st.byteAtQuiet(&Seq{a.p[:1]}, i), st.byteAtQuiet(&Seq{b.p[:1]}, i)
			if x == nil || y == nil {
				return -1
			}
			switch st.eqNum(x, y) {
			case 0:
				return 0
			case -1:
				unk = true
			}
		}
		if unk {
			if p.k == pNum && q.k == pNum && p.w == q.w {
				if r := st.eqNum(p.v, q.v); r != 1 {
					return r
				}
			} else {
				return -1
			}
		}
		_, a2 := st.splitAt(a, K(n))
		_, b2 := st.splitAt(b, K(n))
		a, b = st.normSeq(a2), st.normSeq(b2)
	}
	if len(a.p) == 0 && len(b.p) == 0 {
		return 1
	}
	return st.decideAff('=', a.size().minus(b.size())) // one is empty
}
func (st *State) byteAtQuiet(q *Seq, i int64) (v Val) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(forkReq); ok {
				v = nil
				return
			}
			panic(r)
		}
	}()
	return st.byteAt(q, K(i))
}
func (st *State) eqNum(x, y Val) int {
	x, y = st.finVal(x), st.finVal(y)
	if sameVal(x, y) {
		return 1
	}
	c := st.cmp("==", x, y)
	return st.decide(c)
}
