package main

import (
	"fmt"
	"go/token"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Loops that walk over a content of unknown length byte by byte or rune by rune and carry only
// constants from pass to pass are finite automata. One pass from each control state with an unknown
// token gives the transitions; the texts that lead to each way out of the loop are a regular language.

// scanIter is the iterator of a string during such a pass: at the position k of n bytes, token r.
type scanIter struct {
	k, r *Sym
	end  bool
	used bool
}

type scanEdge struct {
	from, to int
	set      string // class of tokens
	hi       bool   // contains the tokens beyond ASCII (byte loops)
	last     bool   // only as the last byte
}
type scanOut struct {
	from int
	set  string // "" at the end of the text
	last bool   // by the last byte
	end  bool
	hi   bool
	lo   int // ASCII members
	one  byte
	st   *State
	it   *item
	out  *Outcome
}

// scannable finds the counters and string iterators of a loop without effects.
func (in *Interp) scannable(fi *fnInfo, l *loopInfo) (map[*ssa.Phi]int64, []*ssa.Range) {
	if !l.scanned {
		l.scanned = true
		l.ind, l.iters = scannable(l)
	}
	return l.ind, l.iters
}
func scannable(l *loopInfo) (ind map[*ssa.Phi]int64, iters []*ssa.Range) {
	for b := range l.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
				return nil, nil
			case *ssa.Next:
				r, ok := x.Iter.(*ssa.Range)
				if !ok || l.body[r.Block()] {
					continue
				}
				if !x.IsString {
					return nil, nil
				}
				iters = append(iters, r)
			}
		}
	}
	ind = map[*ssa.Phi]int64{}
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		d, all := int64(0), true
		for i, pr := range l.head.Preds {
			if !l.body[pr] {
				continue
			}
			b, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
				all = false
				break
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Int64() != 1 || d != 0 && d != c.Int64() {
				all = false
				break
			}
			d = c.Int64()
		}
		if all && d != 0 {
			ind[p] = d
		}
	}
	if len(iters) > 1 || len(iters) == 0 && len(ind) == 0 {
		return nil, nil
	}
	return
}

// scanTry tells whether summarising is worth a try here: the loop fits and the state does not
// decide whether it goes on.
func (in *Interp) scanTry(fn *ssa.Function, fi *fnInfo, it *item, l *loopInfo) bool {
	ind, iters := in.scannable(fi, l)
	if ind == nil {
		return false
	}
	if len(iters) == 1 {
		x, ok := it.env[fi.idx[iters[0]]].(*Iter)
		return ok && x.str != nil && x.scan == nil
	}
	if in.scanFail[l.head] > 400 {
		return false
	}
	return it.cnt[l.head] == 0 || in.probe(fn, fi, it) == 1
}

func (in *Interp) scanLoop(fn *ssa.Function, fi *fnInfo, it *item, l *loopInfo) (outs []Outcome, exits []*item, done bool) {
	ind, iters := in.scannable(fi, l)
	if ind == nil {
		return
	}
	sp, sc := in.onWrite, in.onMapSet
	defer func() {
		in.onWrite, in.onMapSet = sp, sc
		if r := recover(); r != nil {
			switch r.(type) {
			case undecidedErr, forkReq:
			default:
				panic(r)
			}
			outs, exits, done = nil, nil, false
		}
	}()
	var E []Val
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		E = append(E, in.phiVal(fi, it, p))
	}
	if len(iters) == 1 {
		x, ok := it.env[fi.idx[iters[0]]].(*Iter)
		if !ok || x.str == nil {
			return
		}
		rest := it.st.normSeq(it.st.sub(x.str, x.at, x.str.size().minus(x.at)))
		if len(rest.p) != 1 || rest.p[0].k != pBlob {
			return
		}
		return in.scan(fn, fi, it, l, ind, E, rest.p[0].n, iters[0], x, rest.p[0], false)
	}
	for _, b := range in.loopBounds(fi, it, l) {
		for i, ins := range l.head.Instrs[:len(E)] {
			if ind[ins.(*ssa.Phi)] == 0 {
				continue
			}
			n, ok := E[i].(*Num)
			if !ok {
				continue
			}
			for _, adj := range []int64{0, 1} {
				if outs, exits, done = in.scan(fn, fi, it, l, ind, E, it.st.norm(b.minus(n.e).addc(-adj)), nil, nil, Piece{}, false); done {
					return
				}
			}
		}
	}
	return
}

func (in *Interp) scan(fn *ssa.Function, fi *fnInfo, it *item, l *loopInfo, ind map[*ssa.Phi]int64, E []Val, n *Aff,
	rg *ssa.Range, ri *Iter, p Piece, last bool) (outs []Outcome, exits []*item, done bool) {
	if n.isConst() && (rg == nil && n.c < 4 || n.c < 1) || it.st.decideAff('g', n) != 1 {
		return
	}
	in.scanFail[l.head]++
	k := in.sym("k", 0, 1<<40)
	var r *Sym
	if rg != nil {
		r = in.sym("rune", 0, utf8.MaxRune)
	}
	sig := [][]Val{E}
	var edges []scanEdge
	var os []*scanOut
	nb := len(in.byteSyms)
	var char *Sym // the byte read at k
	find := func() bool {
		if rg != nil {
			char = r
			return true
		}
		for _, s := range in.byteSyms[nb:] {
			on := false
			for _, t := range s.byteOff.t {
				on = on || t.s == k && t.k == 1
			}
			if !on {
				continue
			}
			if char != nil && char != s {
				return false
			}
			char = s
		}
		return true
	}
	where := in.ipos(l.head.Instrs[len(l.head.Instrs)-1]) + " in " + shortFn(fn)
	for q := 0; q < len(sig); q++ {
		if q > 12 {
			return nil, nil, false
		}
		runs := [][2]int64{{-1, 0}, {0, 0}} // at the end, before it
		if last {
			runs = [][2]int64{{-1, 0}, {0, 0}, {0, 1}} // the last byte is a case of its own
		}
		if rg != nil {
			runs = [][2]int64{{-1, 0}, {0, 127}, {128, 255}, {256, utf8.RuneError - 1}, {utf8.RuneError, utf8.RuneError}, {utf8.RuneError + 1, utf8.MaxRune}}
		}
		for _, run := range runs {
			st := it.st.clone()
			st.wrote = map[int]bool{}
			at, end := S(k), run[0] < 0
			if end {
				at = n
			} else {
				st.assumeAff('g', n.minus(S(k)).addc(-1))
				if last && run[1] == 1 {
					st.assumeAff('=', n.minus(S(k)).addc(-1))
				} else if last {
					st.assumeAff('g', n.minus(S(k)).addc(-2))
				}
				if rg != nil {
					st.setRange(r, run[0], run[1])
				}
			}
			if st.dead {
				if end {
					return nil, nil, false
				}
				continue
			}
			g := &item{blk: l.head, prev: it.prev, pc: len(E), env: append([]Val(nil), it.env...), st: st,
				defers: it.defers[:len(it.defers):len(it.defers)], atHead: true}
			for i, v := range sig[q] {
				p := l.head.Instrs[i].(*ssa.Phi)
				if ind[p] != 0 {
					v = &Num{st.norm(st.affOf(E[i]).plus(at))}
				}
				g.env[fi.idx[p]] = v
			}
			if rg != nil {
				g.env[fi.idx[rg]] = &Iter{str: ri.str, at: ri.at, scan: &scanIter{k: k, r: r, end: end}}
			}
			in.onWrite, in.onMapSet = nil, nil
			o, arr, ex := in.drive(fn, fi, []*item{g}, l)
			if !find() {
				return nil, nil, false
			}
			if !end && !last && rg == nil {
				dep := false
				for _, x := range o {
					dep = dep || x.st.nearEnd(n, k)
				}
				for _, x := range append(append([]*item(nil), arr...), ex...) {
					dep = dep || x.st.nearEnd(n, k)
				}
				if dep {
					return in.scan(fn, fi, it, l, ind, E, n, rg, ri, p, true)
				}
			}
			base := len(os)
			for i := range o {
				if !o[i].st.dead {
					os = append(os, &scanOut{from: q, st: o[i].st, out: &o[i]})
				}
			}
			for _, e := range ex {
				if !e.st.dead {
					if !end && rg == nil && e.prev == l.head {
						return nil, nil, false // n is not the number of passes
					}
					os = append(os, &scanOut{from: q, st: e.st, it: e})
				}
			}
			for _, x := range os[base:] {
				x.last = last && run[1] == 1
				if x.end = end; !end && !x.class(char, rg != nil) {
					return nil, nil, false
				}
			}
			for _, a := range arr {
				if a.st.dead {
					continue
				}
				if end {
					return nil, nil, false
				}
				for id := range a.st.wrote {
					if it.st.objInfo(id) != nil {
						return nil, nil, false
					}
				}
				to := make([]Val, len(E))
				for i := range E {
					p := l.head.Instrs[i].(*ssa.Phi)
					v := a.st.finVal(in.phiVal(fi, a, p))
					if ind[p] != 0 {
						x, ok := v.(*Num)
						if !ok || a.st.decideAff('=', x.e.minus(st.affOf(E[i])).minus(S(k)).addc(-1)) != 1 {
							return nil, nil, false
						}
						to[i] = E[i]
						continue
					}
					if _, ok := isConstNum(v); !ok && !sameVal(v, E[i]) {
						return nil, nil, false
					}
					to[i] = v
				}
				t := -1
				for i, s := range sig {
					same := true
					for j := range s {
						same = same && sameVal(s[j], to[j])
					}
					if same {
						t = i
					}
				}
				if t < 0 {
					t = len(sig)
					sig = append(sig, to)
				}
				x := &scanOut{st: a.st}
				if !x.class(char, rg != nil) {
					return nil, nil, false
				}
				edges = append(edges, scanEdge{q, t, x.set, x.hi, last && run[1] == 1})
			}
		}
	}
	if char == nil {
		return nil, nil, false
	}
	if rg == nil {
		// a rune of several bytes has to act like its first byte
		step := map[int]int{} // where bytes beyond ASCII lead
		for _, e := range edges {
			if e.hi && !e.last {
				if t, ok := step[e.from]; ok && t != e.to {
					return nil, nil, false
				}
				step[e.from] = e.to
			}
		}
		for f, t := range step {
			if u, ok := step[t]; f != t && (!ok || u != t) {
				return nil, nil, false
			}
			to := -1
			for _, e := range edges {
				if f != t && e.last && e.hi && (e.from == f || e.from == t) {
					if to >= 0 && e.to != to {
						return nil, nil, false
					}
					to = e.to
				}
			}
			for _, x := range os {
				if x.hi && !x.end && f != t && (x.from == t || x.from == f) {
					return nil, nil, false
				}
			}
		}
		off := it.st.norm(char.byteOff.minus(S(k)))
		for _, t := range off.t {
			if t.s == k {
				return nil, nil, false
			}
		}
		p = Piece{k: pBlob, base: char.byteOf, off: off, n: n}
	}
	var inner []scanEdge
	for _, e := range edges {
		if !e.last {
			inner = append(inner, e)
		}
	}
	rx := kleene(len(sig), inner)
	atEnd := rx
	if last {
		atEnd = make([]string, len(sig))
		for i := range atEnd {
			var alt []string
			if i == 0 {
				alt = append(alt, "")
			}
			for _, e := range edges {
				if e.last && e.to == i && rx[e.from] != "-" {
					alt = append(alt, "(?:"+rx[e.from]+")"+e.set)
				}
			}
			if atEnd[i] = strings.Join(alt, "|"); len(alt) == 0 {
				atEnd[i] = "-"
			}
		}
	}
	// a search for one character
	needle := -1
	if len(sig) == 1 {
		for _, x := range os {
			if !x.end {
				if x.lo == 1 && !x.hi && (needle < 0 || needle == int(x.one)) {
					needle = int(x.one)
				} else {
					needle = 256
				}
			}
		}
	}
	var pos *Sym
	if needle >= 0 && needle < 128 {
		q := &Seq{[]Piece{p}}
		if pos = in.knownAtom(it.st, "index", "", byte(needle), q); pos == nil {
			pos = in.symKey(fmt.Sprintf("index|%v|%v|%q|%s", false, false, string(rune(needle)), it.st.seqKey(q)), "index", -1, inf)
			in.regAtom(it.st, &langAtom{kind: "index", needle: byte(needle), p: p, s: pos})
		}
	}
	in.scanFail[l.head] = 0
	rep := in.loopRep[where]
	if rep == nil {
		rep = &loopReport{where: where, ok: true}
		in.loopRep[where] = rep
	}
	rep.n++
	if rep.how == "" {
		rep.how = "walks over a text once"
	}
	// ways out that cannot be told apart afterwards are one
	var order []string
	groups := map[string][]*scanOut{}
	pats := map[string][]string{}
	for i, x := range os {
		pat := rx[x.from]
		if x.end {
			pat = atEnd[x.from]
		}
		if pat == "-" {
			continue
		}
		pat = "(?:" + pat + ")"
		if !x.end {
			pat += x.set
			switch {
			case !last:
				pat += "(?s:.*)"
			case !x.last:
				pat += "(?s:.+)"
			}
		}
		key := fmt.Sprint(i)
		if s, ok := in.scanKey(fi, it, l, x, k); ok && pos == nil {
			key = s
		}
		if groups[key] == nil {
			order = append(order, key)
		}
		groups[key] = append(groups[key], x)
		pats[key] = append(pats[key], pat)
	}
	for _, key := range order {
		x := groups[key][0]
		st := x.st
		if len(groups[key]) > 1 {
			st = it.st.clone()
			st.wrote = map[int]bool{}
			early := true
			for _, y := range groups[key] {
				early = early && !y.end
			}
			if early {
				st.assumeAff('g', n.addc(-1))
			}
			st.note = x.st.note
			if x.out != nil {
				x.out.st = st
			} else {
				x.it.st = st
			}
		}
		if pos != nil {
			if x.end {
				st.assumeAff('=', S(pos).addc(1))
			} else {
				st.assumeAff('=', S(pos).minus(S(k)))
			}
			if st.dead {
				continue
			}
			in.prune(st, in.atoms[pos])
		} else {
			q := &Seq{[]Piece{p}}
			v := in.pred(st, "re", "^(?:"+strings.Join(pats[key], "|")+")$", q)
			if c, ok := isConstNum(v); ok {
				if c == 0 {
					continue
				}
			} else {
				st.assume(v, true)
				if !st.dead {
					in.prune(st, in.atoms[v.(*Num).e.single()])
				}
			}
		}
		if st.dead {
			continue
		}
		for id := range it.st.wrote {
			st.wrote[id] = true
		}
		if x.out != nil {
			outs = append(outs, *x.out)
			continue
		}
		x.it.cnt, x.it.forked = copyCnt(it.cnt), copyForked(it.forked)
		exits = append(exits, x.it)
	}
	return outs, exits, true
}

// nearEnd: the state knows whether byte k is the last of n.
func (st *State) nearEnd(n *Aff, k *Sym) bool {
	d := n.minus(S(k)).addc(-1)
	return st.decideAff('=', d) == 1 || st.decideAff('g', d.addc(-1)) == 1 || st.decideAff('=', d) == 0
}

// scanKey describes a way out by what the code after the loop can see of it; false when that depends on
// the position or is not simple.
func (in *Interp) scanKey(fi *fnInfo, it *item, l *loopInfo, x *scanOut, k *Sym) (string, bool) {
	if len(x.st.failed) != len(it.st.failed) || len(x.st.events) != len(it.st.events) || len(x.st.now) != len(it.st.now) || x.st.panicky {
		return "", false
	}
	for id := range x.st.wrote {
		if it.st.objInfo(id) != nil {
			return "", false
		}
	}
	if x.out != nil {
		if x.out.panicked {
			return "", false
		}
		s, ok := plainKey(x.st, x.out.ret, k)
		return "ret " + s, ok
	}
	key := fmt.Sprintf("exit %d %d", x.it.prev.Index, x.it.blk.Index)
	for b := range l.body {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			seen := false
			for _, r := range *v.Referrers() {
				if ph, ok := r.(*ssa.Phi); ok && r.Block() == x.it.blk {
					for i, pr := range r.Block().Preds {
						seen = seen || pr == x.it.prev && ph.Edges[i] == v
					}
				} else {
					seen = seen || !l.body[r.Block()]
				}
			}
			if !seen {
				continue
			}
			e := x.it.env[fi.idx[v]]
			if e == nil {
				continue
			}
			s, ok := plainKey(x.st, e, k)
			if !ok {
				return "", false
			}
			key += fmt.Sprintf(" %d:%s", fi.idx[v], s)
		}
	}
	return key, true
}

// plainKey writes a value that means the same in every state since before the loop.
func plainKey(st *State, v Val, k *Sym) (string, bool) {
	switch x := st.finVal(v).(type) {
	case *Num:
		for _, t := range x.e.t {
			if t.s.id >= k.id {
				return "", false
			}
		}
		return x.e.String(), true
	case *Iface:
		if x.t == nil {
			return "nil", true
		}
		s, ok := plainKey(st, x.v, k)
		return x.t.String() + " " + s, ok
	case *Ptr:
		if x.obj == 0 {
			return "nil", true
		}
	case Tuple:
		r := ""
		for _, e := range x {
			s, ok := plainKey(st, e, k)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r, true
	case *Slice:
		if x.obj == 0 {
			return "nil", true
		}
	case *ErrNew:
		if x.id < k.id {
			return fmt.Sprintf("err%d", x.id), true
		}
	case *Str:
		if s, ok := x.q.constStr(); ok {
			return fmt.Sprintf("%q", s), true
		}
	}
	return "", false
}

// class writes the tokens that lead here as a pattern.
func (x *scanOut) class(c *Sym, runes bool) bool {
	if c == nil {
		x.set, x.hi, x.lo = "(?s:.)", true, 128
		return true
	}
	st := x.st
	lo, hi := st.rng(c)
	d := st.dom[c]
	if e := st.norm(S(c)); e.isConst() {
		lo, hi, d = e.c, e.c, nil
	} else if s := e.single(); s != nil && s != c {
		lo, hi = st.rng(s)
		d = st.dom[s]
	} else if s == nil {
		return false
	}
	in := func(v int64) bool { return v >= lo && v <= hi && (d == nil || d.has(v)) }
	var b strings.Builder
	span := func(f, t int64) { fmt.Fprintf(&b, "\\x{%x}-\\x{%x}", f, t) }
	top := int64(128)
	if runes {
		top = 256
	}
	for v := int64(0); v < top; v++ {
		if in(v) {
			w := v
			for w+1 < top && in(w+1) {
				w++
			}
			span(v, w)
			for ; v <= w; v++ {
				if v < 128 {
					x.lo++
					x.one = byte(v)
				} else {
					x.hi = true
				}
			}
			v--
		}
	}
	if runes {
		if hi >= 256 {
			if lo < 256 {
				lo = 256
			}
			span(lo, hi)
			x.hi = true
		}
	} else {
		some, all := false, true
		for v := int64(128); v < 256; v++ {
			some = some || in(v)
			all = all && in(v)
		}
		if some != all {
			return false
		}
		if some {
			span(128, utf8.MaxRune)
			x.hi = true
		}
	}
	if b.Len() == 0 {
		return false
	}
	x.set = "[" + b.String() + "]"
	return true
}

// kleene gives the patterns of the texts that lead from state 0 to each state; "-" for none.
func kleene(n int, edges []scanEdge) []string {
	R := make([][]string, n)
	for i := range R {
		R[i] = make([]string, n)
		for j := range R[i] {
			var s []string
			for _, e := range edges {
				if e.from == i && e.to == j {
					s = append(s, e.set)
				}
			}
			R[i][j] = "-"
			if len(s) > 0 {
				R[i][j] = strings.Join(s, "|")
				if len(s) > 1 {
					R[i][j] = "(?:" + R[i][j] + ")"
				}
			}
		}
	}
	for m := 0; m < n; m++ {
		loop := ""
		if R[m][m] != "-" {
			loop = "(?:" + R[m][m] + ")*"
		}
		N := make([][]string, n)
		for i := range N {
			N[i] = append([]string(nil), R[i]...)
			for j := range N[i] {
				if R[i][m] == "-" || R[m][j] == "-" {
					continue
				}
				via := R[i][m] + loop + R[m][j]
				switch {
				case i == m && j == m:
					N[i][j] = "(?:" + R[m][m] + "(?:" + R[m][m] + ")*)"
					continue
				case i == m:
					via = loop + R[m][j]
				case j == m:
					via = R[i][m] + loop
				}
				switch {
				case i == m || j == m || N[i][j] == "-":
					N[i][j] = "(?:" + via + ")"
				default:
					N[i][j] = "(?:" + N[i][j] + "|" + via + ")"
				}
			}
		}
		R = N
	}
	r := make([]string, n)
	for j := range r {
		switch {
		case j > 0:
			r[j] = R[0][j]
		case R[0][0] == "-":
			r[j] = ""
		default:
			r[j] = "(?:" + R[0][0] + ")?"
		}
	}
	return r
}
