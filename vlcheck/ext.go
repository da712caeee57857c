package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"regexp"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, v Val) []Outcome { return []Outcome{{st: st, ret: v}} }

// extGlobal gives the value of a package variable outside the module.
func (in *Interp) extGlobal(name string, t types.Type) Val {
	switch name {
	case "encoding/binary.BigEndian", "encoding/binary.LittleEndian":
		return &StructV{}
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		in.nsym++
		return &Iface{in.errType(), &ErrNew{id: in.nsym, msg: constSeq(name)}}
	}
	tmp := newState(in)
	v := in.fresh(tmp, t, name)
	for k, o := range tmp.heap {
		in.base[k] = o
	}
	return v
}

var errT = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "errorString", nil), types.NewStruct(nil, nil), nil))

func (in *Interp) errType() types.Type { return errT }

// safeFallback lists packages whose function bodies may be analysed directly when no model exists.
var safeFallback = map[string]bool{
	"bytes": true, "strings": true, "errors": true, "encoding/binary": true, "unicode/utf8": true,
	"slices": true, "maps": true, "math/bits": true, "sort": true, "cmp": true, "math": true, "unicode": true,
}

func sl(v Val) *Slice {
	s, ok := v.(*Slice)
	if !ok {
		undecided("slice expected: %s", valStr(v))
	}
	return s
}

// lenOf is the length of a slice or string value.
func (in *Interp) lenOf(st *State, v Val) *Aff {
	switch x := st.finVal(v).(type) {
	case *Slice:
		return x.len
	case *Str:
		return st.norm(x.q.size())
	case *MapRef:
		if x.obj == 0 {
			return K(0)
		}
		m := st.get(x.obj).(*MapV)
		if m.open {
			return S(in.symKey(fmt.Sprintf("maplen|%d", m.id), "maplen", int64(len(m.ents)), 1<<40))
		}
		return K(int64(len(m.ents)))
	case *Bytes:
		return x.q.size()
	case *ArrV:
		return K(int64(len(x.e)))
	case *Opaque:
		return S(in.symKey(fmt.Sprintf("opqlen|%d", x.id), "opqlen", 0, 1<<40))
	case *Fin:
		return st.affOf(st.finVal(mapFin(x, func(e Val) Val { return &Num{in.lenOf(st, e)} })))
	}
	undecided("length of %s", valStr(v))
	return nil
}

// pred is an unknown truth about a content, the same wherever the content is the same.
func (in *Interp) pred(st *State, kind, arg string, q *Seq) Val {
	if s := in.knownAtom(st, kind, arg, 0, q); s != nil {
		in.prune(st, in.atoms[s])
		return &Num{st.norm(S(s))}
	}
	v := in.boolKey(kind+"|"+arg+"|"+st.seqKey(q), kind+"("+q.String()+")")
	if s := v.(*Num).e.single(); s != nil {
		in.atom(st, kind, arg, 0, q, s)
	}
	return v
}

func (in *Interp) external(st *State, name string, fv *Func, args []Val, site ssa.Instruction) []Outcome {
	for i := range args {
		args[i] = st.finVal(args[i])
	}
	rt := func() types.Type {
		if v, ok := site.(ssa.Value); ok {
			return v.Type()
		}
		return types.NewTuple()
	}
	opaqueRes := func() []Outcome {
		switch t := rt().(type) {
		case *types.Tuple:
			var tu Tuple
			for i := 0; i < t.Len(); i++ {
				tu = append(tu, in.fresh(st, t.At(i).Type(), shortName(name)))
			}
			return one(st, tu)
		default:
			return one(st, in.fresh(st, t, shortName(name)))
		}
	}
	if strings.HasPrefix(name, "builtin:") {
		return in.builtin(st, name[8:], args, site)
	}
	if strings.HasPrefix(name, "opaque:") {
		undecided("call of unknown method %s", name)
	}
	if strings.HasPrefix(name, "callback:") {
		return in.override[name](in, st, args, site)
	}
	switch name {
	case "errors.New":
		in.nsym++
		return one(st, &Iface{in.errType(), &ErrNew{in.nsym, st.content(args[0])}})
	case "fmt.Errorf":
		in.nsym++
		return one(st, &Iface{in.errType(), &ErrNew{in.nsym, nil}})
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln":
		return one(st, Tuple{cst(0), &Iface{}})
	case "fmt.Sprintf", "fmt.Sprint", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.Quote":
		return opaqueRes()
	case "(*regexp.Regexp).Match", "(*regexp.Regexp).MatchString":
		return one(st, in.reMatch(st, args[0], st.content(args[1])))
	case "regexp.MatchString":
		if s, ok := args[0].(*Str); ok {
			if p, ok := s.q.constStr(); ok {
				return one(st, Tuple{in.reMatch(st, &Regex{p}, st.content(args[1])), &Iface{}})
			}
		}
	case "regexp.MustCompile", "regexp.MustCompilePOSIX":
		if s, ok := args[0].(*Str); ok {
			if p, ok := s.q.constStr(); ok {
				if _, err := regexp.Compile(p); err != nil {
					panic(goPanic{nil, "regexp: Compile at " + in.ipos(site)})
				}
				return one(st, &Regex{p})
			}
		}
	case "regexp.Compile":
		if s, ok := args[0].(*Str); ok {
			if p, ok := s.q.constStr(); ok {
				return one(st, Tuple{&Regex{p}, &Iface{}})
			}
		}
	case "unicode/utf8.Valid", "unicode/utf8.ValidString":
		q := st.content(args[0])
		if s, ok := st.normSeq(q).constStr(); ok {
			return one(st, boolV(utf8.ValidString(s)))
		}
		return one(st, in.pred(st, "utf8", "", q))
	case "bytes.Equal":
		return one(st, boolV(st.mustContentEq(st.content(args[0]), st.content(args[1]))))
	case "bytes.HasPrefix", "strings.HasPrefix":
		q, p := st.content(args[0]), st.content(args[1])
		if !st.mustGE(q.size(), p.size()) {
			return one(st, cst(0))
		}
		return one(st, boolV(st.mustContentEq(st.sub(q, K(0), p.size()), p)))
	case "bytes.HasSuffix", "strings.HasSuffix":
		q, p := st.content(args[0]), st.content(args[1])
		if !st.mustGE(q.size(), p.size()) {
			return one(st, cst(0))
		}
		return one(st, boolV(st.mustContentEq(st.sub(q, q.size().minus(p.size()), p.size()), p)))
	case "bytes.Index", "strings.Index", "bytes.IndexByte", "strings.IndexByte", "bytes.IndexAny", "strings.IndexAny",
		"strings.IndexRune", "bytes.IndexRune", "bytes.LastIndex", "strings.LastIndex", "bytes.LastIndexByte", "strings.LastIndexByte":
		q := st.content(args[0])
		var needle string
		ok := false
		if c, isC := isConstNum(args[1]); isC {
			needle, ok = string(rune(c)), true
		} else {
			switch args[1].(type) {
			case *Str, *Slice:
				needle, ok = st.normSeq(st.content(args[1])).constStr()
			}
		}
		if !ok {
			if text, isC := st.normSeq(q).constStr(); isC && (strings.Contains(name, "Rune") || strings.Contains(name, "Byte")) {
				return one(st, in.runeTable(st, args[1], name+"|"+text, func(r rune) int64 {
					if strings.Contains(name, "Byte") {
						if strings.Contains(name, "Last") {
							return int64(strings.LastIndexByte(text, byte(r)))
						}
						return int64(strings.IndexByte(text, byte(r)))
					}
					return int64(strings.IndexRune(text, r))
				}))
			}
		}
		if !ok || needle == "" {
			break
		}
		return one(st, in.indexIn(st, name, q, needle))
	case "bytes.Contains", "strings.Contains", "bytes.ContainsAny", "strings.ContainsAny", "bytes.ContainsRune", "strings.ContainsRune":
		q := st.content(args[0])
		var needle string
		ok := false
		if c, isC := isConstNum(args[1]); isC {
			needle, ok = string(rune(c)), true
		} else {
			switch args[1].(type) {
			case *Str, *Slice:
				needle, ok = st.normSeq(st.content(args[1])).constStr()
			}
		}
		if !ok {
			if text, isC := st.normSeq(q).constStr(); isC && strings.Contains(name, "Rune") {
				return one(st, in.runeTable(st, args[1], name+"|"+text, func(r rune) int64 {
					if strings.ContainsRune(text, r) {
						return 1
					}
					return 0
				}))
			}
			break
		}
		if s, isC := st.normSeq(q).constStr(); isC {
			if strings.HasSuffix(name, "Any") {
				return one(st, boolV(strings.ContainsAny(s, needle)))
			}
			return one(st, boolV(strings.Contains(s, needle)))
		}
		pat := regexp.QuoteMeta(needle)
		if strings.HasSuffix(name, "Any") {
			pat = "[" + regexp.QuoteMeta(needle) + "]"
			if needle == "" {
				return one(st, cst(0))
			}
		}
		return one(st, in.reMatch(st, &Regex{pat}, q))
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64":
		if f, ok := args[0].(*Fin); ok {
			g := &Fin{f.s, f.base, make([]Val, len(f.tab))}
			for i, v := range f.tab {
				if n, ok := isConstNum(v); v != nil && ok {
					g.tab[i] = cst(int64(bits.Len64(uint64(n))))
				} else if v != nil {
					undecided("bit length of %s", valStr(v))
				}
			}
			return one(st, g)
		}
		e := st.norm(st.affOf(args[0]))
		lo, hi := st.bounds(e)
		if lo < 0 && st.nonneg(e) {
			lo = 0
		}
		if lo < 0 || hi >= 1<<59 {
			undecided("bit length of %s", e)
		}
		a, b := int64(bits.Len64(uint64(lo))), int64(bits.Len64(uint64(hi)))
		if a == b {
			return one(st, cst(a))
		}
		s := in.symKey("bits|"+e.String(), "bits", 0, 64)
		s.bitsOf = e
		if len(e.t) == 1 && e.t[0].k == 2 && e.t[0].s.shrD == 2 && e.c&1 == 1 { // x|1
			s.bitsOf = e.t[0].s.shrOf.addc(e.c - 1)
		}
		st.setRangeQuiet(s, a, b)
		return one(st, sv(s))
	case "math/bits.LeadingZeros32":
		o := in.external(st, "math/bits.Len32", fv, args, site)
		return one(st, &Num{st.norm(K(32).minus(st.affOf(o[0].ret)))})
	case "unicode.IsControl", "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower",
		"unicode.IsNumber", "unicode.IsPunct", "unicode.IsPrint", "unicode.IsGraphic", "unicode.IsSymbol", "unicode.IsMark":
		f := map[string]func(rune) bool{"unicode.IsControl": unicode.IsControl, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
			"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
			"unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsPrint": unicode.IsPrint,
			"unicode.IsGraphic": unicode.IsGraphic, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsMark": unicode.IsMark}[name]
		return one(st, in.runeTable(st, args[0], name, func(r rune) int64 {
			if f(r) {
				return 1
			}
			return 0
		}))
	case "strings.Compare", "bytes.Compare":
		if st.mustContentEq(st.content(args[0]), st.content(args[1])) {
			return one(st, cst(0))
		}
		return one(st, &Num{S(in.symKey("cmp|"+st.seqKey(st.content(args[0]))+"|"+st.seqKey(st.content(args[1])), "cmp", -1, 1))})
	case "bytes.Clone":
		s := sl(args[0])
		if s.obj == 0 {
			return one(st, s)
		}
		return one(st, in.bytesOf(st, st.content(s), "bytes.Clone"))
	case "strings.Clone":
		return one(st, args[0])
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		w := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		s := sl(args[1])
		if !st.mustGE(s.len, K(w)) {
			panic(goPanic{nil, "index out of range at " + in.ipos(site)})
		}
		bs, ok := st.get(s.obj).(*Bytes)
		if !ok {
			return opaqueRes()
		}
		return one(st, st.beNum(bs.q, s.off, int(w)))
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64":
		w := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		s := sl(args[1])
		if !st.mustGE(s.len, K(w)) {
			panic(goPanic{nil, "index out of range at " + in.ipos(site)})
		}
		v := args[2]
		if _, ok := v.(*Num); !ok {
			v = &Num{st.affOf(v)}
		}
		st.write(s.obj, s.off, &Seq{[]Piece{{k: pNum, v: v, w: int(w)}}})
		return one(st, Tuple{})
	case "(encoding/binary.bigEndian).AppendUint16", "(encoding/binary.bigEndian).AppendUint32":
		w := map[string]int{"16": 2, "32": 4}[name[len(name)-2:]]
		v := args[2]
		if _, ok := v.(*Num); !ok {
			v = &Num{st.affOf(v)}
		}
		return one(st, in.appendBytes(st, sl(args[1]), &Seq{[]Piece{{k: pNum, v: v, w: w}}}))
	case "encoding/binary.PutUvarint":
		s := sl(args[0])
		e := st.affOf(args[1])
		w := in.uvWidth(st, e, 10)
		if !st.mustGE(s.len, K(int64(w))) {
			panic(goPanic{nil, "index out of range at " + in.ipos(site)})
		}
		st.write(s.obj, s.off, &Seq{[]Piece{{k: pUv, v: &Num{st.norm(e)}, w: w}}})
		return one(st, cst(int64(w)))
	case "encoding/binary.AppendUvarint":
		e := st.affOf(args[1])
		w := in.uvWidth(st, e, 10)
		return one(st, in.appendBytes(st, sl(args[0]), &Seq{[]Piece{{k: pUv, v: &Num{st.norm(e)}, w: w}}}))
	case "time.Now":
		return one(st, in.clock(st))
	case "time.Since":
		if t, ok := args[0].(*TimeV); ok {
			return one(st, &Num{st.norm(in.clock(st).e.minus(t.e))})
		}
		return opaqueRes()
	case "time.Until":
		if t, ok := args[0].(*TimeV); ok {
			return one(st, &Num{st.norm(t.e.minus(in.clock(st).e))})
		}
		return opaqueRes()
	case "(time.Time).IsZero":
		if t, ok := args[0].(*TimeV); ok {
			if t.s == "zero" {
				return one(st, cst(1))
			}
			return one(st, in.boolKey("iszero|"+t.s, "iszero"))
		}
		return opaqueRes()
	case "(time.Time).After", "(time.Time).Before", "(time.Time).Equal", "(time.Time).Sub", "(time.Time).Compare":
		a, ok1 := args[0].(*TimeV)
		b, ok2 := args[1].(*TimeV)
		if !ok1 || !ok2 {
			return opaqueRes()
		}
		d := st.norm(a.e.minus(b.e))
		switch name {
		case "(time.Time).After":
			return one(st, &Cond{'g', d.addc(-1)})
		case "(time.Time).Before":
			return one(st, &Cond{'g', d.scale(-1).addc(-1)})
		case "(time.Time).Equal":
			return one(st, &Cond{'=', d})
		case "(time.Time).Sub":
			return one(st, &Num{d})
		}
		if st.must(&Cond{'=', d}) {
			return one(st, cst(0))
		}
		if st.must(&Cond{'g', d}) {
			return one(st, cst(1))
		}
		return one(st, cst(-1))
	case "(time.Time).UnixNano":
		if t, ok := args[0].(*TimeV); ok {
			return one(st, &Num{t.e})
		}
		return opaqueRes()
	case "(time.Duration).Seconds":
		return opaqueRes()
	case "(time.Duration).Truncate":
		m, ok := st.affOf(args[1]), true
		if ok = m.isConst() && m.c > 0; ok {
			return one(st, st.numOp(token.SUB, args[0], st.numOp(token.REM, args[0], args[1], types.Typ[types.Int64]), types.Typ[types.Int64]))
		}
		return opaqueRes()
	case "(time.Time).Add":
		if t, ok := args[0].(*TimeV); ok {
			e := st.norm(t.e.plus(st.affOf(args[1])))
			return one(st, &TimeV{"sum|" + e.String(), e})
		}
		return opaqueRes()
	case "sync/atomic.AddUint64", "sync/atomic.AddUint32", "sync/atomic.AddInt64", "sync/atomic.AddInt32":
		p := in.ptr(st, args[0], types.NewPointer(types.Typ[types.Uint64]), site)
		t := rt()
		v := in.addWrap(st, in.loadPtr(st, p, t), args[1], t)
		in.storePtr(st, p, v)
		return one(st, v)
	case "sync/atomic.LoadUint64", "sync/atomic.LoadUint32", "sync/atomic.LoadInt64", "sync/atomic.LoadInt32":
		p := in.ptr(st, args[0], types.NewPointer(types.Typ[types.Uint64]), site)
		return one(st, in.loadPtr(st, p, rt()))
	case "sync/atomic.StoreUint64", "sync/atomic.StoreUint32", "sync/atomic.StoreInt64", "sync/atomic.StoreInt32":
		p := in.ptr(st, args[0], types.NewPointer(types.Typ[types.Uint64]), site)
		in.storePtr(st, p, args[1])
		return one(st, Tuple{})
	case "sync/atomic.SwapUint64":
		p := in.ptr(st, args[0], types.NewPointer(types.Typ[types.Uint64]), site)
		old := in.loadPtr(st, p, rt())
		in.storePtr(st, p, args[1])
		return one(st, old)
	case "sync/atomic.CompareAndSwapUint64", "sync/atomic.CompareAndSwapUint32":
		p := in.ptr(st, args[0], types.NewPointer(types.Typ[types.Uint64]), site)
		old := in.loadPtr(st, p, types.Typ[types.Uint64])
		if st.must(st.equal(old, args[1])) {
			in.storePtr(st, p, args[2])
			return one(st, cst(1))
		}
		return one(st, cst(0))
	case "errors.Is":
		return one(st, st.equal(args[0], args[1]))
	case "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/bytealg.Equal":
		undecided("%s", name)
	}
	if fv != nil && fv.fn != nil && fv.fn.Blocks != nil && fv.fn.Pkg != nil && safeFallback[fv.fn.Pkg.Pkg.Path()] {
		return in.exec(fv.fn, args, fv.bind, st)
	}
	if fv != nil && fv.fn != nil && fv.fn.Blocks != nil && fv.fn.Origin() != nil && fv.fn.Origin().Pkg != nil && safeFallback[fv.fn.Origin().Pkg.Pkg.Path()] {
		return in.exec(fv.fn, args, fv.bind, st)
	}
	if fv != nil && fv.fn != nil && fv.fn.Pkg == nil && fv.fn.Blocks != nil && fv.fn.Synthetic != "" {
		return in.exec(fv.fn, args, fv.bind, st)
	}
	if e, ok := firstErr(args); ok && strings.HasSuffix(name, "Error") {
		if e.msg != nil {
			return one(st, &Str{e.msg})
		}
		return opaqueRes()
	}
	undecided("no model of external function %s", name)
	return nil
}

func firstErr(args []Val) (*ErrNew, bool) {
	if len(args) == 0 {
		return nil, false
	}
	e, ok := args[0].(*ErrNew)
	return e, ok
}
func shortName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// addWrap is modular addition (used for counters, whose absolute values are unknown).
func (in *Interp) addWrap(st *State, a, b Val, t types.Type) Val {
	ca, ok1 := isConstNum(a)
	cb, ok2 := isConstNum(b)
	if ok1 && ok2 {
		return cst(wrapConst(ca+cb, t))
	}
	return &Num{st.norm(st.affOf(a).plus(st.affOf(b)))}
}

// uvWidth splits on the size class of a variable byte integer.
func (in *Interp) uvWidth(st *State, e *Aff, max int) int {
	for w := 1; w < max; w++ {
		if w*7 >= 58 {
			return w
		}
		if st.mustGE(K(int64(1)<<(7*uint(w))-1), e) {
			return w
		}
	}
	return max
}

// mustContentEq decides equality of contents, splitting on bytes when one side is constant.
func (st *State) mustContentEq(a, b *Seq) bool {
	a, b = st.normSeq(a), st.normSeq(b)
	switch st.seqEq(a, b) {
	case 1:
		return true
	case 0:
		return false
	}
	ca, ok1 := a.constStr()
	cb, ok2 := b.constStr()
	if ok1 {
		a, b, ca, cb, ok1, ok2 = b, a, cb, ca, ok2, ok1
	}
	if ok2 && len(cb) <= 16 {
		if !st.mustEQ(a.size(), K(int64(len(cb)))) {
			return false
		}
		for i := 0; i < len(cb); i++ {
			if !st.must(st.cmp("==", st.byteAt(a, K(int64(i))), cst(int64(cb[i])))) {
				return false
			}
		}
		return true
	}
	if !st.mustEQ(a.size(), b.size()) {
		return false
	}
	if st.seqEq(a, b) == 1 {
		return true
	}
	return st.must(st.eqKey(a, b))
}

func (in *Interp) reMatch(st *State, re Val, q *Seq) Val {
	r, ok := re.(*Regex)
	if !ok {
		undecided("match against unknown pattern %s", valStr(re))
	}
	q = st.normSeq(q)
	if s, ok := q.constStr(); ok {
		c, err := regexp.Compile(r.pat)
		if err != nil {
			undecided("pattern %q", r.pat)
		}
		return boolV(c.MatchString(s))
	}
	// a content that may be empty is split first, the empty one is decided exactly
	if st.mustEQ(q.size(), K(0)) {
		return boolV(regexp.MustCompile(r.pat).MatchString(""))
	}
	return in.pred(st, "re", r.pat, q)
}

// indexIn is the position of the first (or last) occurrence of a constant needle.
func (in *Interp) indexIn(st *State, name string, q *Seq, needle string) Val {
	q = st.normSeq(q)
	last := strings.Contains(name, "Last")
	any := strings.HasSuffix(name, "Any")
	if s, ok := q.constStr(); ok {
		switch {
		case any:
			return cst(int64(strings.IndexAny(s, needle)))
		case last:
			return cst(int64(strings.LastIndex(s, needle)))
		}
		return cst(int64(strings.Index(s, needle)))
	}
	n := q.size()
	key := fmt.Sprintf("index|%v|%v|%q|%s", last, any, needle, st.seqKey(q))
	// leading constant bytes that are no match shift the search
	var s *Sym
	if !last && !any && len(needle) == 1 {
		if s = in.knownAtom(st, "index", "", needle[0], q); s != nil {
			in.prune(st, in.atoms[s])
		}
	}
	if s == nil {
		s = in.symKey(key, "index", -1, inf)
	}
	l := int64(len(needle))
	if any {
		l = 1
	}
	if last || any || l != 1 {
		// whether there is one is a question about the text
		pat := regexp.QuoteMeta(needle)
		if any {
			pat = "[" + pat + "]"
		}
		if !st.must(in.reMatch(st, &Regex{pat}, q)) {
			return cst(-1)
		}
		st.assumeAff('g', S(s))
		if st.dead {
			return cst(-1)
		}
	}
	if !last && !any && l == 1 {
		in.atom(st, "index", "", needle[0], q, s)
	}
	if !st.mustGE(S(s), K(0)) {
		return cst(-1)
	}
	st.assumeAff('g', n.minus(S(s)).addc(-l))
	if !last && !any {
		// bytes before the position differ from a one-byte needle
		if l == 1 && len(q.p) > 0 {
			for i := int64(0); i < 8; i++ {
				if st.decideAff('g', n.addc(-i-1)) != 1 {
					break
				}
				b := st.byteAtQuiet(q, i)
				if b == nil {
					break
				}
				if st.decide(st.cmp("==", b, cst(int64(needle[0])))) == 0 {
					if st.decideAff('g', S(s).addc(-i)) == 1 {
						st.assumeAff('g', S(s).addc(-i-1))
						continue
					}
				}
				break
			}
		}
	}
	return &Num{st.norm(S(s))}
}

func (in *Interp) appendBytes(st *State, s *Slice, q *Seq) Val {
	n := st.norm(q.size())
	if n.isConst() && n.c == 0 {
		return s
	}
	if s.obj == 0 {
		return in.bytesOf(st, q, "append")
	}
	room := s.cap.minus(s.len).minus(n)
	if st.decideAff('=', s.cap.minus(s.len)) != 1 && st.mustGE(room, K(0)) {
		st.write(s.obj, s.off.plus(s.len), q)
		return &Slice{s.obj, s.off, st.norm(s.len.plus(n)), s.cap}
	}
	if l := st.norm(s.len); l.isConst() && l.c == 0 {
		return in.bytesOf(st, q, "append")
	}
	return in.bytesOf(st, cat(st.content(s), q), "append")
}

func (in *Interp) builtin(st *State, name string, args []Val, site ssa.Instruction) []Outcome {
	switch name {
	case "len":
		return one(st, &Num{in.lenOf(st, args[0])})
	case "cap":
		if s, ok := args[0].(*Slice); ok {
			return one(st, &Num{s.cap})
		}
		return one(st, &Num{in.lenOf(st, args[0])})
	case "append":
		s, ok := args[0].(*Slice)
		if !ok {
			if o, isO := args[0].(*Opaque); isO {
				s = in.keyed(fmt.Sprintf("opqslice|%d", o.id), o.t).(*Slice)
			} else {
				undecided("append to %s", valStr(args[0]))
			}
		}
		if len(args) == 1 {
			return one(st, s)
		}
		et := under(site.(ssa.Value).Type()).(*types.Slice).Elem()
		if isByte(et) {
			return one(st, in.appendBytes(st, s, st.content(args[1])))
		}
		t := sl(args[1])
		tn, sn := st.norm(t.len), st.norm(s.len)
		if tn.isConst() && tn.c == 0 {
			return one(st, s)
		}
		var te, se *ArrV
		if t.obj != 0 {
			te, _ = st.get(t.obj).(*ArrV)
		}
		if s.obj != 0 {
			se, _ = st.get(s.obj).(*ArrV)
		} else {
			se = &ArrV{}
		}
		so, to := st.norm(s.off), st.norm(t.off)
		if te == nil || se == nil || !tn.isConst() || !sn.isConst() || !so.isConst() || !to.isConst() {
			n := st.norm(sn.plus(tn))
			return one(st, &Slice{st.alloc(in.opqArr(et), et, "append"), K(0), n, n})
		}
		add := te.e[to.c : to.c+tn.c]
		if s.obj != 0 && st.decideAff('=', s.cap.minus(s.len)) != 1 {
			if st.mustGE(s.cap.minus(s.len), tn) {
				n := &ArrV{append([]Val(nil), se.e...)}
				for i, v := range add {
					n.e[so.c+sn.c+int64(i)] = v
				}
				st.set(s.obj, n)
				return one(st, &Slice{s.obj, s.off, K(sn.c + tn.c), s.cap})
			}
		}
		n := &ArrV{}
		if s.obj != 0 {
			n.e = append(n.e, se.e[so.c:so.c+sn.c]...)
		}
		n.e = append(n.e, add...)
		l := K(int64(len(n.e)))
		return one(st, &Slice{st.alloc(n, et, "append"), K(0), l, l})
	case "copy":
		d := sl(args[0])
		sn := in.lenOf(st, args[1])
		n := sn
		if !st.mustGE(d.len, sn) {
			n = d.len
		}
		n = st.norm(n)
		if n.isConst() && n.c == 0 {
			return one(st, cst(0))
		}
		if _, ok := st.get(d.obj).(*Bytes); ok {
			q := st.sub(st.content(args[1]), K(0), n)
			st.write(d.obj, d.off, q)
			return one(st, &Num{n})
		}
		s := sl(args[1])
		se, ok1 := st.get(s.obj).(*ArrV)
		de, ok2 := st.get(d.obj).(*ArrV)
		so, do := st.norm(s.off), st.norm(d.off)
		if ok1 && ok2 && n.isConst() && so.isConst() && do.isConst() {
			r := &ArrV{append([]Val(nil), de.e...)}
			copy(r.e[do.c:do.c+n.c], se.e[so.c:so.c+n.c])
			st.set(d.obj, r)
			return one(st, &Num{n})
		}
		if o, ok := st.get(d.obj).(*OpaqueArr); ok {
			st.set(d.obj, in.opqArr(o.elem))
			return one(st, &Num{n})
		}
		if ok2 {
			et := st.objInfo(d.obj).t
			r := &ArrV{}
			for range de.e {
				r.e = append(r.e, in.fresh(st, et, "copied"))
			}
			st.set(d.obj, r)
			return one(st, &Num{n})
		}
		undecided("copy")
	case "delete":
		in.mapDelete(st, args[0], args[1])
		return one(st, Tuple{})
	case "recover":
		if st.panicky {
			v := st.panicV
			st.panicky, st.panicV = false, nil
			if o, ok := v.(*Iface); ok {
				return one(st, o)
			}
			return one(st, &Iface{types.Typ[types.String], &Str{constSeq("runtime error")}})
		}
		return one(st, &Iface{})
	case "print", "println":
		return one(st, Tuple{})
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			ge := st.mustGE(st.affOf(r), st.affOf(a))
			if (name == "min") == ge {
				r = a
			}
		}
		return one(st, r)
	case "clear":
		if m, ok := args[0].(*MapRef); ok && m.obj != 0 {
			st.set(m.obj, in.newMap(nil, false))
			return one(st, Tuple{})
		}
		if s, ok := args[0].(*Slice); ok {
			if s.obj == 0 {
				return one(st, Tuple{})
			}
			if _, ok := st.get(s.obj).(*Bytes); ok {
				st.write(s.obj, s.off, &Seq{[]Piece{{k: pZero, n: s.len}}})
				return one(st, Tuple{})
			}
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p.obj == 0 {
			panic(goPanic{nil, "nil receiver at " + in.ipos(site)})
		}
		return one(st, args[0])
	}
	undecided("builtin %s", name)
	return nil
}

// modelUvarint summarises the package's variable byte integer reader (its body is checked against
// this summary under C31). It reads a value of one to four bytes in minimal form.
func modelUvarint(in *Interp, st *State, args []Val, site ssa.Instruction) []Outcome {
	fail := func(n Val) []Outcome {
		st.failed = append(st.failed, "uvarint ("+in.ipos(site)+")")
		return one(st, Tuple{cst(0), n})
	}
	s := sl(st.finVal(args[0]))
	if s.obj == 0 {
		return fail(cst(0))
	}
	q := st.content(s)
	q = st.normSeq(q)
	if l := st.norm(q.size()); l.isConst() && l.c == 0 {
		return fail(cst(0))
	}
	// exact on byte-structured content
	r := K(0)
	for i := 0; ; i++ {
		if len(q.p) == 0 {
			return fail(cst(0))
		}
		p := q.p[0]
		if p.k == pUv && i == 0 {
			if p.w > 4 {
				return fail(cst(int64(-p.w)))
			}
			return one(st, Tuple{p.v, cst(int64(p.w))})
		}
		if p.k == pBlob || p.k == pZero || p.k == pUv {
			if i > 3 {
				if st.mustGE(q.size(), K(1)) {
					return fail(cst(-5))
				}
				return fail(cst(0))
			}
			if i > 0 {
				// the field goes on in bytes that are not known: at least one more, not zero at the end
				key := fmt.Sprintf("uvrest%d|%s", i, st.seqKey(q))
				cnt := in.symKey(key+"|n", "uvlen", -inf, int64(4-i))
				val := in.symKey(key+"|v", "uvval", 1, 1<<uint(28-7*i)-1)
				if st.mustGE(S(cnt), K(1)) {
					st.assumeAff('g', q.size().minus(S(cnt)))
					if st.dead {
						return nil
					}
					return one(st, Tuple{&Num{st.norm(r.plus(S(val).scale(1 << uint(7*i))))}, &Num{st.norm(S(cnt).addc(int64(i)))}})
				}
				st.assumeAff('g', q.size().plus(S(cnt)))
				if st.dead {
					return nil
				}
				return fail(&Num{st.norm(S(cnt).addc(int64(-i)))})
			}
			key := "uv|" + st.seqKey(q)
			cnt := in.symKey(key+"|n", "uvlen", -inf, 4)
			val := in.symKey(key+"|v", "uvval", 0, 1<<28-1)
			if st.mustGE(S(cnt), K(1)) {
				st.assumeAff('g', q.size().minus(S(cnt)))
				if st.dead {
					return nil
				}
				return one(st, Tuple{&Num{st.norm(S(val))}, &Num{st.norm(S(cnt))}})
			}
			st.assumeAff('g', q.size().plus(S(cnt)))
			if st.dead {
				return nil
			}
			return fail(&Num{st.norm(S(cnt))})
		}
		if i > 3 {
			return fail(cst(-5))
		}
		b := st.byteAt(q, K(0))
		_, q = st.splitAt(q, K(1))
		q = st.normSeq(q)
		be := st.affOf(b)
		if st.mustGE(K(127), be) {
			if i > 0 && st.mustEQ(be, K(0)) {
				return fail(cst(int64(-(i + 1))))
			}
			return one(st, Tuple{&Num{st.norm(r.plus(be.scale(1 << (7 * uint(i)))))}, cst(int64(i + 1))})
		}
		r = r.plus(be.addc(-128).scale(1 << (7 * uint(i))))
	}
	undecided("variable byte integer in %s", q)
	return nil
}

// runeTable applies a function to an unknown rune: a table for small runes, one value when it is the
// same for all that are possible.
func (in *Interp) runeTable(st *State, v Val, key string, f func(rune) int64) Val {
	v = st.finVal(v)
	if c, ok := isConstNum(v); ok {
		return cst(f(rune(c)))
	}
	e := st.affOf(v)
	lo, hi := st.bounds(e)
	if lo < 0 || hi > utf8.MaxRune {
		undecided("%s of %s", key, valStr(v))
	}
	if s, k := soleSym(e); s != nil && k == 1 && hi-lo < 256 {
		if d := st.mkDom(s); d != nil {
			t := &Fin{s: s, base: d.base, tab: make([]Val, 256)}
			d.each(func(x int64) {
				if r := x + e.c; r >= 0 && r <= utf8.MaxRune {
					t.tab[x-d.base] = cst(f(rune(r)))
				}
			})
			return st.finVal(t)
		}
	}
	type span struct{ mn, mx int64 }
	ck := fmt.Sprintf("%s|%d|%d", key, lo, hi)
	x, ok := runeSpans.Load(ck)
	if !ok {
		sp := span{inf, -inf}
		for r := lo; r <= hi; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			c := f(rune(r))
			if c < sp.mn {
				sp.mn = c
			}
			if c > sp.mx {
				sp.mx = c
			}
		}
		runeSpans.Store(ck, sp)
		x = sp
	}
	sp := x.(span)
	if sp.mn == sp.mx {
		return cst(sp.mn)
	}
	return &Num{S(in.symKey("rune|"+key+"|"+e.String(), "rune", sp.mn, sp.mx))}
}

var runeSpans sync.Map

// clock reads the clock: no earlier than every reading before.
func (in *Interp) clock(st *State) *TimeV {
	n := len(st.now)
	key := fmt.Sprintf("now%d", n)
	e := S(in.symKey("clock|"+key, key, 0, 1<<20))
	if n > 0 {
		st.factOnce(e.minus(st.now[n-1]))
	}
	st.now = append(st.now[:n:n], e)
	return &TimeV{key, e}
}
