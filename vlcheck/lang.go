package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
)

// Regular languages of contents. What is known about a content through patterns, UTF-8 validity
// and searches for a byte is a conjunction of regular languages; infeasible combinations are pruned
// and the conjunction can be compared with a grammar. A content is seen as the sequence of tokens Go
// decodes it to: runes and invalid bytes.

// langAtom is what a symbol says about a content.
type langAtom struct {
	kind   string // "re", "utf8", "index"
	pat    string // pattern
	needle byte
	p      Piece
	s      *Sym
}

// atomGroup holds the atoms about contents of one blob with the same end.
type atomGroup struct {
	end   *Aff
	key   string
	atoms []*langAtom
}

// atomsFor are the atoms about contents with the end of p.
func (st *State) atomsFor(p Piece) (r []*langAtom) {
	end := st.norm(p.off.plus(p.n))
	gs := st.in.groups[p.base]
	key := end.String()
	for _, g := range gs {
		if g.key == key || len(gs) <= 8 && affEq(st.norm(g.end), end) {
			r = append(r, g.atoms...)
		}
	}
	return
}

// lang is one conjunct: a pattern that has to match completely (or must not).
type lang struct {
	pat  string // stripped of anchors
	neg  bool
	utf8 bool // the conjunct is UTF-8 validity instead
}

func (in *Interp) regAtom(st *State, a *langAtom) {
	if in.atoms == nil {
		in.atoms = map[*Sym]*langAtom{}
		in.groups = map[*Blob][]*atomGroup{}
	}
	if _, ok := in.atoms[a.s]; ok {
		return
	}
	in.atoms[a.s] = a
	end := st.norm(a.p.off.plus(a.p.n))
	key := end.String()
	for _, g := range in.groups[a.p.base] {
		if g.key == key {
			g.atoms = append(g.atoms, a)
			return
		}
	}
	in.groups[a.p.base] = append(in.groups[a.p.base], &atomGroup{end, key, []*langAtom{a}})
}

// strip turns a pattern into one that has to match the whole text.
func strip(pat string) (string, bool) {
	if r, ok := stripCache.Load(pat); ok {
		return r.(string), r != ""
	}
	r, ok := strip1(pat)
	if !ok {
		r = ""
	} else {
		r = "(?:" + r + ")"
	}
	stripCache.Store(pat, r)
	return r, ok
}

var stripCache, langCache sync.Map

func strip1(pat string) (string, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return "", false
	}
	re = re.Simplify()
	var begin, end bool
	var subs []*syntax.Regexp
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	} else {
		subs = []*syntax.Regexp{re}
	}
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		begin, subs = true, subs[1:]
	}
	if len(subs) > 0 && subs[len(subs)-1].Op == syntax.OpEndText {
		end, subs = true, subs[:len(subs)-1]
	}
	var b strings.Builder
	if !begin {
		b.WriteString("(?s:.*)")
	}
	for _, s := range subs {
		if anchored(s) {
			return "", false
		}
		b.WriteString("(?:" + s.String() + ")")
	}
	if !end {
		b.WriteString("(?s:.*)")
	}
	return b.String(), true
}
func anchored(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpBeginText, syntax.OpEndText, syntax.OpBeginLine, syntax.OpEndLine, syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		return true
	}
	for _, s := range re.Sub {
		if anchored(s) {
			return true
		}
	}
	return false
}

// describe expresses an offset of a content relative to root as a pattern prefix; tokens and bytes
// have to coincide in the first skip tokens.
func (st *State) describe(root *Aff, atoms []*langAtom, off *Aff, depth int) (pre string, skip int64, ok bool) {
	d := st.norm(off.minus(root))
	if d.isConst() {
		if d.c < 0 {
			return "", 0, false
		}
		return fmt.Sprintf("(?s:.{%d})", d.c), d.c, true
	}
	if depth > 4 {
		return "", 0, false
	}
	for _, a := range atoms {
		if a.kind != "index" {
			continue
		}
		// off = offset of a + position + 1
		if e := st.norm(off.minus(a.p.off).minus(S(a.s)).addc(-1)); e.isConst() && e.c == 0 {
			if lo, _ := st.rng(a.s); lo < 0 {
				continue
			}
			p, k, ok := st.describe(root, atoms, a.p.off, depth+1)
			if !ok {
				continue
			}
			n := quoteByte(a.needle)
			return p + "(?s:[^" + n + "]*)" + n, k, true
		}
	}
	return "", 0, false
}

func quoteByte(b byte) string { return fmt.Sprintf(`\x{%x}`, b) }

// langs collects what is known about the content at root..end. skipped conjuncts only lose
// information.
func (st *State) langs(root Piece) (ls []lang, first [][]bool) {
	// leading bytes
	atoms := st.atomsFor(root)
	at := map[int64]byte{}
	for _, a := range atoms {
		if a.kind == "index" {
			d, p := st.norm(a.p.off.minus(root.off)), st.norm(S(a.s))
			if d.isConst() && p.isConst() && p.c >= 0 {
				at[d.c+p.c] = a.needle
			}
		}
	}
	for i := int64(0); i < 24; i++ {
		if st.decideAff('g', root.n.addc(-i-1)) != 1 {
			break
		}
		set := make([]bool, 256)
		for j := range set {
			set[j] = true
		}
		any := false
		if b, ok := at[i]; ok {
			for j := range set {
				set[j] = j == int(b)
			}
			any = true
		}
		for _, s := range st.aliasBytes(&Seq{[]Piece{root}}, K(i)) {
			lo, hi := st.rng(s)
			d := st.dom[s]
			e := st.norm(S(s))
			if e.isConst() {
				lo, hi, d = e.c, e.c, nil
			} else if x := e.single(); x != nil && x != s {
				lo, hi = st.rng(x)
				d = st.dom[x]
			}
			for j := range set {
				if int64(j) < lo || int64(j) > hi || d != nil && !d.has(int64(j)) {
					set[j] = false
				}
			}
			any = true
		}
		if !any {
			// unknown byte: tokens stay aligned only up to here
			first = append(first, set)
			break
		}
		first = append(first, set)
		ascii := true
		for j := 128; j < 256; j++ {
			ascii = ascii && !set[j]
		}
		if !ascii {
			break
		}
	}
	aligned := int64(0)
	for _, s := range first {
		ok := true
		for j := 128; j < 256; j++ {
			ok = ok && !s[j]
		}
		if !ok {
			break
		}
		aligned++
	}
	for _, a := range atoms {
		pre, skip, ok := st.describe(root.off, atoms, a.p.off, 0)
		if !ok || skip > aligned {
			continue
		}
		e := st.norm(S(a.s))
		lo, hi := st.bounds(e)
		switch a.kind {
		case "re", "utf8":
			if lo != hi {
				continue
			}
			if a.kind == "utf8" {
				if st.norm(a.p.off.minus(root.off)).isConst() {
					// ASCII bytes before it do not matter
					ls = append(ls, lang{utf8: true, neg: lo == 0})
				} else if lo == 1 {
					continue
				}
				continue
			}
			p, ok := strip(a.pat)
			if !ok {
				continue
			}
			ls = append(ls, lang{pat: pre + "(?:" + p + ")", neg: lo == 0})
		case "index":
			n := quoteByte(a.needle)
			switch {
			case hi < 0:
				ls = append(ls, lang{pat: pre + "(?s:[^" + n + "]*)"})
			case lo >= 1:
				ls = append(ls, lang{pat: pre + "(?s:[^" + n + "]+)" + n + "(?s:.*)"})
			case lo == 0 && hi == 0:
				ls = append(ls, lang{pat: pre + n + "(?s:.*)"})
			case lo >= 0:
				ls = append(ls, lang{pat: pre + "(?s:[^" + n + "]*)" + n + "(?s:.*)"})
			}
			if lo >= 0 {
				// what is left behind the needle
				switch rest := a.p.n.minus(S(a.s)).addc(-1); {
				case st.decideAff('=', rest) == 1:
					ls = append(ls, lang{pat: pre + "(?s:[^" + n + "]*)" + n})
				case st.decideAff('g', rest.addc(-1)) == 1:
					ls = append(ls, lang{pat: pre + "(?s:[^" + n + "]*)" + n + "(?s:.+)"})
				}
			}
			if hi >= 0 && a.needle < 128 {
				// positions that are excluded, behind ASCII text (where tokens and bytes coincide)
				asc := "[\\x{0}-" + quoteByte(a.needle-1) + quoteByte(a.needle+1) + "-\\x{7f}]"
				if l := lo; l > 1 {
					if l > 64 {
						l = 64
					}
					ls = append(ls, lang{pat: fmt.Sprintf("%s%s{0,%d}%s(?s:.*)", pre, asc, l-1, n), neg: true})
				}
				if hi < 64 {
					ls = append(ls, lang{pat: fmt.Sprintf("%s(?s:[^%s]{0,%d})%s(?s:.*)", pre, n, hi, n)})
				}
				for k := int64(1); k <= 12; k++ {
					if k > lo && k < hi && st.decideAff('=', e.addc(-k)) == 0 {
						ls = append(ls, lang{pat: fmt.Sprintf("%s%s{%d}%s(?s:.*)", pre, asc, k, n), neg: true})
					}
				}
			}
		}
	}
	if rn := st.norm(root.n); !rn.isConst() {
		lo, hi := st.bounds(rn)
		for k := int64(1); k <= 12; k++ {
			if k >= lo && k <= hi && st.decideAff('=', rn.addc(-k)) == 0 {
				ls = append(ls, lang{pat: fmt.Sprintf("[\\x{0}-\\x{7f}]{%d}", k), neg: true})
			}
		}
		if lo > 64 {
			lo = 64
		}
		if lo > 1 {
			ls = append(ls, lang{pat: fmt.Sprintf("[\\x{0}-\\x{7f}]{0,%d}", lo-1), neg: true})
		}
	}
	if _, hi := st.bounds(st.norm(root.n)); hi < 64 {
		ls = append(ls, lang{pat: fmt.Sprintf("(?s:.{0,%d})", hi)})
	}
	if st.decideAff('g', root.n.addc(-1)) == 1 {
		ls = append(ls, lang{pat: "(?s:.+)"})
	} else if st.decideAff('=', root.n) == 1 {
		ls = append(ls, lang{pat: ""})
	}
	return
}

// langEmpty decides whether no content satisfies all conjuncts; the witness is one that does.
func (in *Interp) langEmpty(ls []lang, first [][]bool) (empty bool, witness string) {
	// cache
	var kb strings.Builder
	for _, l := range ls {
		fmt.Fprintf(&kb, "%q %v %v;", l.pat, l.neg, l.utf8)
	}
	for _, f := range first {
		for _, x := range f {
			if x {
				kb.WriteByte('1')
			} else {
				kb.WriteByte('0')
			}
		}
		kb.WriteByte(';')
	}
	if x, ok := langCache.Load(kb.String()); ok {
		r := x.(string)
		return r == "-", strings.TrimPrefix(r, "+")
	}
	empty, witness = langSearch(ls, first)
	r := "+" + witness
	if empty {
		r = "-"
	}
	langCache.Store(kb.String(), r)
	return
}

const tokInvalid = rune(-1)

func langSearch(ls []lang, first [][]bool) (bool, string) {
	var progs []*syntax.Prog
	bound := map[rune]bool{0: true, 0x80: true, utf8.RuneError: true, utf8.RuneError + 1: true, 0xE000: true}
	for _, l := range ls {
		if l.utf8 {
			progs = append(progs, nil)
			continue
		}
		re, err := syntax.Parse(l.pat, syntax.Perl)
		if err != nil {
			undecided("pattern %q: %v", l.pat, err)
		}
		p, err := syntax.Compile(re.Simplify())
		if err != nil {
			undecided("pattern %q: %v", l.pat, err)
		}
		progs = append(progs, p)
		for i := range p.Inst {
			x := &p.Inst[i]
			switch x.Op {
			case syntax.InstRune, syntax.InstRune1:
				if len(x.Rune) == 1 {
					bound[x.Rune[0]] = true
					bound[x.Rune[0]+1] = true
				}
				for j := 0; j+1 < len(x.Rune); j += 2 {
					bound[x.Rune[j]] = true
					bound[x.Rune[j+1]+1] = true
				}
			case syntax.InstRuneAnyNotNL:
				bound['\n'] = true
				bound['\n'+1] = true
			}
		}
	}
	for _, f := range first {
		for j := 0; j < 128; j++ {
			if j > 0 && f[j] != f[j-1] {
				bound[rune(j)] = true
			}
		}
	}
	var toks []rune
	for b := range bound {
		if b >= 0xD800 && b < 0xE000 || b > 0x10FFFF || b < 0 {
			continue
		}
		toks = append(toks, b)
	}
	sort.Slice(toks, func(i, j int) bool { return toks[i] < toks[j] })
	// readable representatives for witnesses
	for i := range toks {
		hi := rune(0x110000)
		if i+1 < len(toks) {
			hi = toks[i+1]
		}
		for _, c := range "ab" {
			if c > toks[i] && c < hi {
				toks[i] = c
			}
		}
	}
	toks = append(toks, tokInvalid)
	type node struct {
		sets [][]uint32
		u    bool // an invalid byte was seen
		pos  int
		from int
		tok  rune
	}
	closure := func(p *syntax.Prog, pcs []uint32) []uint32 {
		seen := map[uint32]bool{}
		var r []uint32
		var rec func(pc uint32)
		rec = func(pc uint32) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			x := &p.Inst[pc]
			switch x.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				rec(x.Out)
				rec(x.Arg)
			case syntax.InstCapture, syntax.InstNop:
				rec(x.Out)
			case syntax.InstEmptyWidth:
				undecided("pattern with an anchor inside")
			case syntax.InstFail:
			default:
				r = append(r, pc)
			}
		}
		for _, pc := range pcs {
			rec(pc)
		}
		sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
		return r
	}
	key := func(n *node) string {
		var b strings.Builder
		fmt.Fprintf(&b, "%v %d ", n.u, n.pos)
		for _, s := range n.sets {
			fmt.Fprintf(&b, "%v", s)
		}
		return b.String()
	}
	start := &node{from: -1}
	for _, p := range progs {
		if p == nil {
			start.sets = append(start.sets, nil)
			continue
		}
		start.sets = append(start.sets, closure(p, []uint32{uint32(p.Start)}))
	}
	accept := func(n *node) bool {
		if n.pos < len(first) {
			return false // these bytes exist
		}
		for i, l := range ls {
			ok := false
			if l.utf8 {
				ok = !n.u
			} else {
				for _, pc := range n.sets[i] {
					if progs[i].Inst[pc].Op == syntax.InstMatch {
						ok = true
					}
				}
			}
			if ok == l.neg {
				return false
			}
		}
		return true
	}
	nodes := []*node{start}
	seen := map[string]bool{key(start): true}
	for i := 0; i < len(nodes); i++ {
		n := nodes[i]
		if accept(n) {
			var w []string
			for m := n; m.from >= 0; m = nodes[m.from] {
				if m.tok == tokInvalid {
					w = append(w, `\xff`)
				} else {
					q := fmt.Sprintf("%q", m.tok)
					w = append(w, q[1:len(q)-1])
				}
			}
			for a, b := 0, len(w)-1; a < b; a, b = a+1, b-1 {
				w[a], w[b] = w[b], w[a]
			}
			return false, strings.Join(w, "")
		}
		if len(nodes) > 200000 {
			undecided("language too large")
		}
		for _, t := range toks {
			m := &node{u: n.u || t == tokInvalid, pos: n.pos, from: i, tok: t}
			if n.pos < len(first) {
				f := first[n.pos]
				ok := false
				if t >= 0 && t < 128 {
					ok = f[t]
				} else {
					for j := 128; j < 256; j++ {
						ok = ok || f[j]
					}
				}
				if !ok {
					continue
				}
				m.pos++
				if t < 0 || t >= 128 {
					m.pos = len(first)
				}
			}
			r := t
			if t == tokInvalid {
				r = utf8.RuneError
			}
			dead := false
			for k, p := range progs {
				if p == nil {
					m.sets = append(m.sets, nil)
					if m.u && !ls[k].neg {
						dead = true
						break
					}
					continue
				}
				var next []uint32
				for _, pc := range n.sets[k] {
					x := &p.Inst[pc]
					ok := false
					switch x.Op {
					case syntax.InstRune, syntax.InstRune1:
						ok = x.MatchRune(r)
					case syntax.InstRuneAny:
						ok = true
					case syntax.InstRuneAnyNotNL:
						ok = r != '\n'
					}
					if ok {
						next = append(next, x.Out)
					}
				}
				next = closure(p, next)
				if len(next) == 0 && !ls[k].neg {
					dead = true
					break
				}
				m.sets = append(m.sets, next)
			}
			if dead {
				continue
			}
			if kk := key(m); !seen[kk] {
				seen[kk] = true
				nodes = append(nodes, m)
			}
		}
	}
	return true, ""
}

// feasibleLang tells whether the conjunction of everything known about the contents of a blob that
// share an end with p is satisfiable, together with extra conjuncts about p.
func (st *State) feasibleLang(p Piece, extra ...lang) (bool, string) {
	ls, first := st.langs(p)
	e, w := st.in.langEmpty(append(ls, extra...), first)
	return !e, w
}

// roots are the pieces known atoms about the blob of p start from.
func (st *State) roots(p Piece) []Piece {
	r := []Piece{p}
	for _, a := range st.atomsFor(p) {
		if a.kind == "index" || affEq(st.norm(a.p.off), st.norm(p.off)) {
			continue
		}
		dup := false
		for _, x := range r {
			dup = dup || affEq(st.norm(x.off), st.norm(a.p.off))
		}
		if !dup {
			r = append(r, a.p)
		}
	}
	return r
}

// prune restricts the symbol of an atom to what the languages already known allow.
func (in *Interp) prune(st *State, a *langAtom) {
	related := false
	for _, x := range st.atomsFor(a.p) {
		if x != a {
			lo, hi := st.bounds(st.norm(S(x.s)))
			related = related || lo == hi || x.kind == "index" && lo >= 0
		}
	}
	if !related {
		return
	}
	test := func(lo, hi int64) bool {
		l, h := st.rng(a.s)
		if lo < l {
			lo = l
		}
		if hi > h {
			hi = h
		}
		if lo > hi {
			return false
		}
		t := st.clone()
		t.setRange(a.s, lo, hi)
		if t.dead {
			return false
		}
		for _, r := range t.roots(a.p) {
			if ok, _ := t.feasibleLang(r); !ok {
				return false
			}
		}
		return true
	}
	if x := st.norm(S(a.s)); x.single() != a.s {
		if x.isConst() {
			for _, r := range st.roots(a.p) {
				if ok, _ := st.feasibleLang(r); !ok {
					st.dead = true
					return
				}
			}
		}
		return
	}
	if a.kind == "index" {
		if lo, hi := st.rng(a.s); lo < 0 && hi >= 0 {
			if !test(-1, -1) {
				st.setRange(a.s, 0, hi)
			} else if !test(0, inf) {
				st.setRange(a.s, -1, -1)
			}
		}
		if lo, hi := st.rng(a.s); lo == 0 && hi > 0 && !test(0, 0) {
			st.setRange(a.s, 1, hi)
		}
		return
	}
	if lo, hi := st.rng(a.s); lo == 0 && hi == 1 {
		if !test(1, 1) {
			st.setRange(a.s, 0, 0)
		} else if !test(0, 0) {
			st.setRange(a.s, 1, 1)
		}
	}
}

func (in *Interp) atom(st *State, kind, pat string, needle byte, q *Seq, s *Sym) {
	q = st.normSeq(q)
	if len(q.p) != 1 || q.p[0].k != pBlob {
		return
	}
	a := &langAtom{kind: kind, pat: pat, needle: needle, p: q.p[0], s: s}
	in.regAtom(st, a)
	in.prune(st, in.atoms[s])
}

// knownAtom finds the symbol of a question asked before about an equal content.
func (in *Interp) knownAtom(st *State, kind, pat string, needle byte, q *Seq) *Sym {
	q = st.normSeq(q)
	if len(q.p) != 1 || q.p[0].k != pBlob {
		return nil
	}
	for _, a := range st.atomsFor(q.p[0]) {
		if a.kind == kind && a.pat == pat && a.needle == needle && affEq(st.norm(a.p.off), st.norm(q.p[0].off)) {
			return a.s
		}
	}
	return nil
}
