package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbols and affine expressions -------------------------------------------------------------

// Sym is an unknown integer (or boolean 0/1) of the analysed program. Its range and value set are
// part of the abstract state, not of the symbol.
type Sym struct {
	id      int
	name    string
	lo, hi  int64
	shrOf   *Aff // floor(shrOf / shrD)
	shrD    int64
	byteOf  *Blob // the byte at byteOff of a content
	byteOff *Aff
	isLen   bool // length of a content: eliminated first
	modOf   *Aff // congruent to it modulo 2^64
	bitsOf  *Aff // number of significant bits of it
}

type term struct {
	s *Sym
	k int64
}

// Aff is c + sum k_i*s_i; immutable.
type Aff struct {
	c int64
	t []term
}

func K(c int64) *Aff { return &Aff{c: c} }
func S(s *Sym) *Aff  { return &Aff{t: []term{{s, 1}}} }

func (a *Aff) isConst() bool { return len(a.t) == 0 }
func (a *Aff) add(b *Aff, k int64) *Aff {
	if k == 0 {
		return a
	}
	if len(b.t) == 0 {
		if b.c == 0 {
			return a
		}
		return &Aff{a.c + k*b.c, a.t}
	}
	r := &Aff{c: a.c + k*b.c}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s.id < b.t[j].s.id:
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s.id < a.t[i].s.id:
			r.t = append(r.t, term{b.t[j].s, k * b.t[j].k})
			j++
		default:
			if n := a.t[i].k + k*b.t[j].k; n != 0 {
				r.t = append(r.t, term{a.t[i].s, n})
			}
			i++
			j++
		}
	}
	return r
}
func (a *Aff) plus(b *Aff) *Aff   { return a.add(b, 1) }
func (a *Aff) minus(b *Aff) *Aff  { return a.add(b, -1) }
func (a *Aff) addc(c int64) *Aff  { return &Aff{a.c + c, a.t} }
func (a *Aff) scale(k int64) *Aff { return K(0).add(a, k) }
func (a *Aff) single() *Sym {
	if len(a.t) == 1 && a.t[0].k == 1 && a.c == 0 {
		return a.t[0].s
	}
	return nil
}
func (a *Aff) String() string {
	var b strings.Builder
	for i, t := range a.t {
		if i > 0 {
			b.WriteString("+")
		}
		if t.k != 1 {
			fmt.Fprintf(&b, "%d*", t.k)
		}
		fmt.Fprintf(&b, "%s#%d", t.s.name, t.s.id)
	}
	if a.c != 0 || len(a.t) == 0 {
		if len(a.t) > 0 && a.c > 0 {
			b.WriteString("+")
		}
		fmt.Fprintf(&b, "%d", a.c)
	}
	return b.String()
}
func affEq(a, b *Aff) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// ---- abstract values ----------------------------------------------------------------------------

type Val interface{}

// Num is an integer or boolean value given by an affine expression.
type Num struct{ e *Aff }

// Fin is a value that is an exact function (table) of one small-domain symbol.
type Fin struct {
	s    *Sym
	base int64
	tab  []Val // nil entry: value of s outside the domain when the table was made
}

// Cond is a boolean given by an affine comparison.
type Cond struct {
	op byte // 'g': e>=0, '=': e==0, '!': e!=0
	e  *Aff
}

type Str struct{ q *Seq } // string content
type Slice struct {       // []T
	obj           int // 0: nil slice
	off, len, cap *Aff
}
type Ptr struct {
	obj  int // 0: nil
	path []int
	idx  *Aff // element of a byte region / array root
}
type StructV struct{ f []Val }
type ArrV struct{ e []Val } // array or backing store of a non-byte slice
type Bytes struct{ q *Seq } // backing store of bytes
type OpaqueArr struct {     // backing store of unknown length and content
	elem types.Type
	id   int
}
type MapV struct {
	ents []mapEnt
	open bool // may contain further unknown entries
	id   int
}
type mapEnt struct{ k, v Val }
type MapRef struct{ obj int } // 0: nil map
type Iface struct {
	t types.Type // nil: nil interface
	v Val
}
type Func struct {
	fn   *ssa.Function
	bind []Val
	ext  string // modelled external
}
type Tuple []Val

// Opaque is an unknown value of the given type.
type Opaque struct {
	t  types.Type
	id int
}
type Iter struct {
	ents []mapEnt
	pos  int
	open bool
	str  *Seq // a string instead of a map, from byte at
	at   *Aff
	scan *scanIter
	id   int
}
type Regex struct{ pat string }
type ErrNew struct {
	id  int
	msg *Seq
}

// TimeV is an instant: e nanoseconds after some moment shortly before the analysed call.
type TimeV struct {
	s string
	e *Aff
}

func cst(c int64) Val { return &Num{K(c)} }
func boolV(b bool) Val {
	if b {
		return cst(1)
	}
	return cst(0)
}

func isConstNum(v Val) (int64, bool) {
	if n, ok := v.(*Num); ok && n.e.isConst() {
		return n.e.c, true
	}
	return 0, false
}

// ---- byte sequences -----------------------------------------------------------------------------

const (
	pConst = iota
	pNum   // big endian integer of width w
	pBlob  // n bytes of an unknown content from off
	pUv    // variable byte integer, c bytes
	pZero  // n zero bytes
)

type Blob struct {
	id   int
	name string
}
type Piece struct {
	k    int
	b    []byte
	v    Val // pNum: Num, Fin
	w    int
	base *Blob
	off  *Aff
	n    *Aff
}
type Seq struct{ p []Piece }

func (p *Piece) size() *Aff {
	switch p.k {
	case pConst:
		return K(int64(len(p.b)))
	case pNum, pUv:
		return K(int64(p.w))
	}
	return p.n
}
func (q *Seq) size() *Aff {
	r := K(0)
	for i := range q.p {
		r = r.plus(q.p[i].size())
	}
	return r
}
func constSeq(s string) *Seq {
	if s == "" {
		return &Seq{}
	}
	return &Seq{[]Piece{{k: pConst, b: []byte(s)}}}
}
func cat(qs ...*Seq) *Seq {
	r := &Seq{}
	for _, q := range qs {
		r.p = append(r.p, q.p...)
	}
	return r
}
func (q *Seq) constStr() (string, bool) {
	var b []byte
	for _, p := range q.p {
		switch {
		case p.k == pConst:
			b = append(b, p.b...)
		case p.k == pNum && p.w == 1:
			c, ok := isConstNum(p.v)
			if !ok {
				return "", false
			}
			b = append(b, byte(c))
		default:
			return "", false
		}
	}
	return string(b), true
}

func valStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Num:
		return x.e.String()
	case *Fin:
		var b strings.Builder
		fmt.Fprintf(&b, "fin(%s#%d:", x.s.name, x.s.id)
		last := ""
		for i, t := range x.tab {
			if t == nil {
				continue
			}
			if s := valStr(t); s != last {
				fmt.Fprintf(&b, " %d>%s", int64(i)+x.base, s)
				last = s
			}
		}
		return b.String() + ")"
	case *Cond:
		return fmt.Sprintf("(%s %c 0)", x.e, x.op)
	case *Str:
		return "str" + x.q.String()
	case *Slice:
		if x.obj == 0 {
			return "nilslice"
		}
		return fmt.Sprintf("slice(o%d,%s,%s)", x.obj, x.off, x.len)
	case *Ptr:
		return fmt.Sprintf("ptr(o%d%v)", x.obj, x.path)
	case *StructV:
		var s []string
		for _, f := range x.f {
			s = append(s, valStr(f))
		}
		return "{" + strings.Join(s, ",") + "}"
	case *Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.t, valStr(x.v))
	case *MapRef:
		return fmt.Sprintf("map(o%d)", x.obj)
	case *Func:
		if x.fn != nil {
			return x.fn.String()
		}
		return x.ext
	case Tuple:
		var s []string
		for _, f := range x {
			s = append(s, valStr(f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *Opaque:
		return fmt.Sprintf("?%d:%s", x.id, x.t)
	case *ErrNew:
		return fmt.Sprintf("err%d", x.id)
	case *Regex:
		return "re:" + x.pat
	}
	return fmt.Sprintf("%T", v)
}
func (q *Seq) String() string {
	var s []string
	for _, p := range q.p {
		switch p.k {
		case pConst:
			s = append(s, fmt.Sprintf("%q", p.b))
		case pNum:
			s = append(s, fmt.Sprintf("be%d(%s)", p.w*8, valStr(p.v)))
		case pUv:
			s = append(s, fmt.Sprintf("uv(%s)", valStr(p.v)))
		case pZero:
			s = append(s, fmt.Sprintf("zero(%s)", p.n))
		case pBlob:
			s = append(s, fmt.Sprintf("%s#%d[%s:+%s]", p.base.name, p.base.id, p.off, p.n))
		}
	}
	return "<" + strings.Join(s, " ") + ">"
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
