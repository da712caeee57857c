package main

import "fmt"

// Variable byte integers.

// useUv lets the summary modelUvarint stand for the body of uvarint. C31 decides that they agree on
// every input; what else follows from a difference is reported by uvLemma.
func (c *Ctx) useUv() { c.in.override[module+"/mqttp.uvarint"] = modelUvarint }

// uvLemma reports the differences between uvarint and its summary that break the property itself:
// a panic breaks C01, a wrong value or count of a well-formed field breaks framing and round trips.
func uvLemma(r *Report) {
	rule := map[string]string{"C01": "no-panic", "C03": "exact", "C09": "exact", "C10": "exact"}[r.prop]
	if rule == "" {
		return
	}
	l := newReport(r.prog, r.prop)
	uvCases(l)
	l.run()
	r.scenarios, r.obl, r.cells = r.scenarios+l.scenarios, r.obl+l.obl, r.cells+l.cells
	for _, v := range l.viol {
		if v.rule == rule && !v.undec {
			r.viol = append(r.viol, v)
		}
	}
}

// uvCases compares the reader with the definition, for all byte strings: they are partitioned by
// the number of leading bytes with the continuation bit.
func uvCases(r *Report) {
	run := func(c *Ctx, st *State, q *Seq, k func(st *State, v, n *Aff)) {
		c.fn(st, "uvarint", []Val{c.in.bytesOf(st, q, "input")}, func(st *State, rv Val) {
			c.split(st, func(st *State) {
				c.cells++
				k(st, st.norm(st.affOf(tup(rv, 0))), st.norm(st.affOf(tup(rv, 1))))
			})
		})
	}
	fails := func(c *Ctx, st *State, n, l *Aff, what string) {
		c.must(st, st.decideAff('g', n.scale(-1)) == 1, "strict", "%s is read with count %s", what, n)
		c.must(st, st.decideAff('g', n.plus(l)) == 1, "strict", "%s is refused with count %s", what, n)
	}
	lead := func(c *Ctx, st *State, n int) (q *Seq, v *Aff) {
		q, v = &Seq{}, K(0)
		for i := 0; i < n; i++ {
			b := c.num(128, 255, fmt.Sprintf("byte%d", i))
			q = cat(q, byteSeq(sv(b)))
			if i < 4 {
				v = v.plus(S(b).addc(-128).scale(1 << uint(7*i)))
			}
		}
		return
	}
	for j := 0; j <= 3; j++ {
		for _, tail := range []bool{false, true} {
			j, tail := j, tail
			suf := ""
			if tail {
				suf = " followed by anything"
			}
			r.add(fmt.Sprintf("uvarint of a minimal form of %d bytes%s", j+1, suf), func(c *Ctx) {
				st := c.state()
				q, v := lead(c, st, j)
				lo := int64(1)
				if j == 0 {
					lo = 0
				}
				b := c.num(lo, 127, "last")
				q = cat(q, byteSeq(sv(b)))
				v = v.plus(S(b).scale(1 << uint(7*j)))
				if tail {
					x, _ := c.blob("rest", 0, 1<<40)
					q = cat(q, x)
				}
				run(c, st, q, func(st *State, rv, n *Aff) {
					c.must(st, st.decideAff('=', n.addc(int64(-j-1))) == 1, "exact", "a value of %d bytes is read with count %s", j+1, n)
					c.must(st, st.decideAff('=', st.norm(rv.minus(v))) == 1, "exact", "a value of %d bytes is read as %s, it is %s", j+1, rv, v)
				})
			})
			if j > 0 {
				r.add(fmt.Sprintf("uvarint of %d bytes that are not minimal%s", j+1, suf), func(c *Ctx) {
					st := c.state()
					q, _ := lead(c, st, j)
					q = cat(q, constSeq("\x00"))
					if tail {
						x, _ := c.blob("rest", 0, 1<<40)
						q = cat(q, x)
					}
					run(c, st, q, func(st *State, rv, n *Aff) { fails(c, st, n, q.size(), "a value that is not minimal") })
				})
			}
		}
	}
	for j := 0; j <= 6; j++ {
		j := j
		r.add(fmt.Sprintf("uvarint of %d bytes without an end", j), func(c *Ctx) {
			st := c.state()
			q, _ := lead(c, st, j)
			run(c, st, q, func(st *State, rv, n *Aff) { fails(c, st, n, K(int64(j)), "a value without end") })
		})
	}
	r.add("uvarint of more than four bytes", func(c *Ctx) {
		st := c.state()
		q, _ := lead(c, st, 4)
		x, _ := c.blob("rest", 0, 1<<40)
		q = cat(q, x)
		c.in.widen = true
		run(c, st, q, func(st *State, rv, n *Aff) { fails(c, st, n, q.size(), "a value of more than four bytes") })
	})
}

func checkC31(r *Report) {
	uvCases(r)
	// a field with a value that is not minimal, too long or without end is not accepted in any place
	bad := func(n int) []string {
		b := byte(n)
		return []string{
			string([]byte{b | 0x80, 0}), string([]byte{b | 0x80, 0x80, 0}), string([]byte{b | 0x80, 0x80, 0x80, 0}),
			string([]byte{b | 0x80, 0x80, 0x80, 0x80, 0}), string([]byte{b | 0x80, 0x80, 0x80, 0x80, 0x80, 0}),
			string([]byte{b | 0x80, 0x80, 0x80, 0x80, 1}),
		}
	}
	refused := func(c *Ctx, ver int64, st *State, q *Seq, what string) {
		c.decodeSeq(st, ver, q, func(st *State, m *Iface, err Val) {
			c.must(st, m == nil, "refused", "%s is accepted in %s", what, q)
		})
	}
	for _, ver := range versions {
		for t := int64(1); t <= 15; t++ {
			if t == tAUTH && ver < 5 {
				continue
			}
			ver, t := ver, t
			r.add(fmt.Sprintf("remaining length of a v%d %s in wrong form", ver, typeNames[t]), func(c *Ctx) {
				for n := 0; n < 128; n += 13 {
					for _, l := range bad(n) {
						st := c.state()
						body, _ := c.blob("body", int64(n), int64(n))
						refused(c, ver, st, cat(byteSeq(cst(t<<4|defaultFlags[t])), constSeq(l), body), fmt.Sprintf("remaining length %x", l))
					}
				}
				st := c.state()
				rest, _ := c.blob("rest", 0, 1<<40)
				c.in.widen = true
				refused(c, ver, st, cat(byteSeq(cst(t<<4|defaultFlags[t])), constSeq("\xff\xff\xff\xff"), rest), "a remaining length of more than four bytes")
			})
			if ver != 5 || t == tPINGREQ || t == tPINGRESP {
				continue
			}
			r.add(fmt.Sprintf("property fields of a v5 %s in wrong form", typeNames[t]), func(c *Ctx) {
				place := func(block func(st *State) (l string, rest *Seq, what string)) {
					st := c.state()
					pre, post, flags := c.around(st, t)
					l, rest, what := block(st)
					q := cat(pre, constSeq(l), rest, post)
					c.split(st, func(st *State) { refused(c, 5, st, c.packet(st, t, K(flags), q), what) })
				}
				for _, l := range bad(0) {
					l := l
					place(func(st *State) (string, *Seq, string) { return l, &Seq{}, fmt.Sprintf("property length %x", l) })
				}
				var ps *propSpec
				for i := range propTable {
					if propTable[i].types[t] && propTable[i].kind != kVarInt {
						ps = &propTable[i]
					}
				}
				if ps == nil {
					undecided("no property for %s", typeNames[t])
				}
				n := -1
				place(func(st *State) (string, *Seq, string) {
					q := c.wireProp(st, ps, "").encs[0](st)
					if s := st.norm(q.size()); s.isConst() {
						n = int(s.c)
					}
					return "\x80\x00", q, "property length 8000"
				})
				if n < 0 || n > 120 {
					undecided("property of %d bytes", n)
				}
				for _, l := range bad(n) {
					l := l
					place(func(st *State) (string, *Seq, string) {
						return l, c.wireProp(st, ps, "").encs[0](st), fmt.Sprintf("property length %x", l)
					})
				}
				for _, id := range bad(int(ps.id)) {
					id := id
					place(func(st *State) (string, *Seq, string) {
						q := c.wireProp(st, ps, "").encs[0](st)
						_, q = st.splitAt(q, K(1))
						return string([]byte{byte(n - 1 + len(id))}), cat(constSeq(id), q), fmt.Sprintf("property identifier %x", id)
					})
				}
				for i := range propTable {
					v := &propTable[i]
					if v.kind != kVarInt || !v.types[t] {
						continue
					}
					for _, x := range bad(5) {
						x := x
						place(func(st *State) (string, *Seq, string) {
							return string([]byte{byte(1 + len(x))}), constSeq(string([]byte{byte(v.id)}) + x), fmt.Sprintf("%s %x", v.name, x)
						})
					}
				}
			})
		}
	}
	// encoding: minimal form, counted exactly
	var ss []scen
	for _, s := range plainScens() {
		if s.typ == tPUBLISH || s.typ == tSUBSCRIBE {
			ss = append(ss, s)
		}
	}
	for _, s := range propScens() {
		if s.typ == tPUBLISH || s.typ == tSUBSCRIBE || s.typ == tDISCONNECT {
			ss = append(ss, s)
		}
	}
	runScens(r, ss, func(c *Ctx, st *State, p *pkt) {
		c.encoded(st, p, func(st *State, n *Aff, e encRes) {
			if !e.ok {
				return // C05
			}
			c.must(st, st.decideAff('=', st.norm(n.minus(st.affOf(e.n)))) == 1, "counted", "Size is %s, Encode gives %s bytes", n, st.norm(st.affOf(e.n)))
			got := st.sub(e.now, K(0), st.affOf(e.n))
			c.must(st, c.matchPkt(st, got, p), "emitted", "Encode emits %s", got)
		})
	})
}
