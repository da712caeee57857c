package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scenarios that build a packet through the public API with unknown field values, and what has to
// hold when its size is computed and it is encoded and decoded again.

type leaf func(c *Ctx, st *State, p *pkt)

// scen describes one family of packets.
type scen struct {
	name     string
	ver, typ int64
	o        opts
	heavy    bool
}

func vname(v int64) string { return fmt.Sprintf("v%d", v) }

// allTypes that exist in a protocol version.
func allTypes(ver int64) (r []int64) {
	for t := int64(1); t <= 15; t++ {
		if t == tAUTH && ver < 5 {
			continue
		}
		r = append(r, t)
	}
	return
}

// plainScens: every packet type and version without properties.
func plainScens() (r []scen) {
	add := func(ver, typ int64, o opts, extra string) {
		r = append(r, scen{name: strings.TrimSpace(typeNames[typ] + " " + vname(ver) + " " + extra), ver: ver, typ: typ, o: o})
	}
	for _, v := range versions {
		for _, t := range allTypes(v) {
			switch t {
			case tCONNECT:
				vs := []string{"", "user", "user,pass", "will", "will,user", "will,user,pass"}
				if v >= 5 {
					vs = append(vs, "pass", "will,pass", "will,willprops", "will,willprops,user,pass")
				}
				for _, x := range vs {
					add(v, t, opts{variant: x}, x)
				}
			case tPUBLISH:
				for _, x := range []string{"", "Set", "noid"} {
					add(v, t, opts{variant: x}, x)
				}
			case tSUBSCRIBE, tUNSUBSCRIBE, tSUBACK, tUNSUBACK:
				for _, n := range []int{0, 1, 2, 3, 17} {
					add(v, t, opts{n: n}, fmt.Sprintf("list of %d", n))
				}
			default:
				add(v, t, opts{}, "")
			}
			if needsID(t) {
				add(v, t, opts{n: 1, variant: "noid"}, "without identifier")
			}
			// the version is set later
			if t != tAUTH && t != tCONNECT {
				via := int64(5)
				if v == 5 {
					via = 4
				}
				o := opts{n: 1, via: via}
				if t == tPUBLISH {
					o.variant = "Set"
				}
				add(v, t, o, fmt.Sprintf("created as v%d", via))
			}
		}
	}
	return
}

// propScens: every property on every packet type that may carry it.
func propScens() (r []scen) {
	base := func(t int64) opts {
		switch t {
		case tPUBLISH:
			return opts{variant: "Set"}
		case tSUBSCRIBE, tUNSUBSCRIBE, tSUBACK, tUNSUBACK:
			return opts{n: 1, variant: "plain"}
		}
		return opts{}
	}
	for t := int64(1); t <= 15; t++ {
		t := t
		add := func(name string, f func(c *Ctx, st *State) []*propVal) {
			o := base(t)
			o.props = f
			r = append(r, scen{name: typeNames[t] + " v5 with " + name, ver: 5, typ: t, o: o})
		}
		var own []*propSpec
		for i := range propTable {
			ps := &propTable[i]
			if !ps.types[t] || ps.id == 0x18 {
				continue // the will delay is covered by CONNECT with will properties
			}
			own = append(own, ps)
			add(ps.name, func(c *Ctx, st *State) []*propVal { return []*propVal{c.propOf(st, ps, 1, "")} })
			if ps.rep[t] {
				for _, n := range []int{2, 3} {
					n := n
					add(fmt.Sprintf("%d values of %s", n, ps.name), func(c *Ctx, st *State) []*propVal { return []*propVal{c.propOf(st, ps, n, "")} })
				}
			}
		}
		// pairs: each property together with its successor and with the user properties
		for i := range own {
			a, b := own[i], own[(i+1)%len(own)]
			if a == b {
				continue
			}
			add(a.name+" and "+b.name, func(c *Ctx, st *State) []*propVal {
				return []*propVal{c.propOf(st, a, 1, ""), c.propOf(st, b, 1, "")}
			})
		}
		if len(own) > 2 {
			add("all its properties", func(c *Ctx, st *State) (l []*propVal) {
				for _, ps := range own {
					l = append(l, c.propOf(st, ps, 1, ""))
				}
				// keep the count of cases small: lengths and numbers are fixed here
				for _, p := range l {
					for _, n := range p.lps {
						if s := n.single(); s != nil {
							st.setRange(s, 5, 5)
						}
					}
					if p.spec.kind == kVarInt {
						if s := st.affOf(p.val.(*Iface).v).single(); s != nil {
							st.setRange(s, 77, 77)
						}
					}
				}
				return l
			})
		}
	}
	return
}

func runScens(r *Report, ss []scen, f leaf) {
	for _, s := range ss {
		s := s
		r.add(s.name, func(c *Ctx) {
			c.useUv()
			c.base(c.state(), s.ver, s.typ, s.o, func(st *State, p *pkt) {
				c.split(st, func(st *State) {
					c.cells++
					f(c, st, p)
				})
			})
		})
	}
}

// size calls Size; k gets its value and error.
func (c *Ctx) size(st *State, m *Iface, k func(st *State, n Val, err Val)) {
	c.inv(st, m, "Size", nil, func(st *State, r Val) { k(st, tup(r, 0), tup(r, 1)) })
}

// encode calls Encode with a buffer of n unknown bytes.
func (c *Ctx) encode(st *State, m *Iface, n *Aff, name string, k func(st *State, r encRes)) {
	c.in.nblob++
	old := &Seq{[]Piece{{k: pBlob, base: &Blob{c.in.nblob, name}, off: K(0), n: n}}}
	buf := c.in.roomy(st, old, name)
	beyond := &Slice{buf.obj, buf.len, st.norm(buf.cap.minus(buf.len)), st.norm(buf.cap.minus(buf.len))}
	rest := st.content(beyond)
	c.inv(st, m, "Encode", []Val{buf}, func(st *State, r Val) {
		c.split(st, func(st *State) {
			if now := st.content(beyond); st.seqEq(now, rest) != 1 {
				c.fail(st, "beyond", "Encode writes %s behind its buffer", now)
			}
			ok := c.nilErr(st, tup(r, 1))
			k(st, encRes{ok: ok, n: tup(r, 0), err: tup(r, 1), old: old, now: st.content(buf), buf: buf})
		})
	})
}

type encRes struct {
	ok       bool
	n, err   Val
	old, now *Seq
	buf      *Slice
}

// matchPkt decides whether q is a permitted encoding of p, with its properties in any order.
func (c *Ctx) matchPkt(st *State, q *Seq, p *pkt) bool {
	q = st.normSeq(q)
next:
	for _, alt := range p.alts {
		var cur []*Seq
		size := K(0)
		add := func(x *Seq) {
			cur = append(cur, x)
			size = size.plus(x.size())
		}
		total := K(0)
		for _, x := range alt {
			if x.block {
				total = total.plus(c.blocks(st, x.props)[0].size())
			} else {
				total = total.plus(x.q.size())
			}
		}
		total = st.norm(total)
		add(byteSeq(&Num{p.flags.addc(p.typ << 4)}))
		add(c.uvSeq(st, total))
		if st.decideAff('=', st.norm(q.size().minus(size).minus(total))) != 1 {
			continue
		}
		for _, x := range alt {
			if !x.block {
				add(x.q)
				continue
			}
			groups := map[byte]*Seq{}
			n := K(0)
			for _, pv := range x.props {
				g := &Seq{}
				for _, f := range pv.encs {
					g = cat(g, f(st))
				}
				if len(g.p) == 0 {
					continue
				}
				if groups[byte(pv.spec.id)] != nil {
					undecided("property %s expected twice", pv.spec.name)
				}
				groups[byte(pv.spec.id)] = g
				n = n.plus(g.size())
			}
			add(c.uvSeq(st, n))
			for len(groups) > 0 {
				if len(groups) == 1 {
					for _, g := range groups {
						add(g)
					}
					break
				}
				b := st.sub(q, st.norm(size), K(1))
				if len(b.p) != 1 || b.p[0].k != pConst || groups[b.p[0].b[0]] == nil {
					continue next
				}
				add(groups[b.p[0].b[0]])
				delete(groups, b.p[0].b[0])
			}
		}
		if st.seqEq(q, cat(cur...)) == 1 {
			return true
		}
	}
	return false
}

// encoded computes Size and encodes into a dirty buffer of exactly that size; packets that cannot
// be encoded are left out.
func (c *Ctx) encoded(st *State, p *pkt, k func(st *State, n *Aff, e encRes)) {
	if p.mustFail != "" {
		return
	}
	if !c.encodable(st, p) {
		return
	}
	c.size(st, p.msg, func(st *State, nv, err Val) {
		c.split(st, func(st *State) {
			if !c.nilErr(st, err) {
				return
			}
			n := st.norm(st.affOf(nv))
			c.encode(st, p.msg, n, "dirty buffer", func(st *State, e encRes) { k(st, n, e) })
		})
	})
}

func checkC05(r *Report) {
	runScens(r, append(plainScens(), propScens()...), func(c *Ctx, st *State, p *pkt) {
		c.encoded(st, p, func(st *State, n *Aff, e encRes) {
			if c.must(st, e.ok, "size-suffices", "Encode into a buffer of Size()=%s bytes fails: %s", n, c.errName(st, e.err)) {
				m := st.norm(st.affOf(e.n))
				c.must(st, st.decideAff('=', m.minus(n)) == 1, "size-exact", "Encode reports %s bytes, Size reported %s", m, n)
			}
		})
	})
	// the version changes once the packet is complete
	for _, s := range append(plainScens(), propScens()...) {
		if s.o.n > 2 || s.o.via != 0 {
			continue
		}
		for _, v := range versions {
			s, v := s, v
			if v == s.ver || v == 3 && s.ver == 4 || v == 4 && s.ver == 3 || s.typ == tAUTH {
				continue
			}
			r.add(fmt.Sprintf("%s, then version %d", s.name, v), func(c *Ctx) {
				c.useUv()
				c.base(c.state(), s.ver, s.typ, s.o, func(st *State, p *pkt) {
					c.split(st, func(st *State) {
						c.cells++
						c.set(st, p.msg, "SetVersion", []Val{cst(v)}, func(st *State) {
							c.encoded(st, p, func(st *State, n *Aff, e encRes) {
								if e.ok {
									m := st.norm(st.affOf(e.n))
									c.must(st, st.decideAff('=', m.minus(n)) == 1, "size-exact", "Encode reports %s bytes, Size reported %s", m, n)
								}
							})
						})
					})
				})
			})
		}
	}
	received(r, func(c *Ctx, st *State, w *rcv) {
		c.sized(st, w, func(st *State, n *Aff, e encRes) {
			if c.must(st, e.ok, "size-suffices", "for the received %s, Encode into a buffer of Size()=%s bytes fails: %s", w.wire, n, c.errName(st, e.err)) {
				m := st.norm(st.affOf(e.n))
				c.must(st, st.decideAff('=', m.minus(n)) == 1, "size-exact", "for the received %s, Encode reports %s bytes, Size reported %s", w.wire, m, n)
			}
		})
	})
}

func checkC07(r *Report) {
	runScens(r, append(plainScens(), propScens()...), func(c *Ctx, st *State, p *pkt) {
		c.encoded(st, p, func(st *State, n *Aff, e encRes) {
			if !e.ok {
				return // C05
			}
			ws := c.wires(st, p)
			got := st.sub(e.now, K(0), st.affOf(e.n))
			exp := ""
			if len(ws) > 0 {
				exp = ws[0].String()
			}
			c.must(st, c.matchPkt(st, got, p), "bytes", "Encode emits %s, expected %s", got, exp)
		})
	})
}

// global reads an exported error variable or constant of the package.
func (c *Ctx) global(st *State, name string) Val {
	switch o := c.p.Members[name].(type) {
	case *ssa.NamedConst:
		v := c.in.constVal(o.Value)
		return &Iface{o.Type(), v}
	case *ssa.Global:
		return st.get(c.in.globalObj(o))
	}
	undecided("%s not found", name)
	return nil
}

func (c *Ctx) isErr(st *State, err Val, name string) bool {
	return c.same(st, err, c.global(st, name)) == 1
}

func (c *Ctx) unchanged(st *State, e encRes) bool {
	return st.decideAff('=', st.norm(e.now.size().minus(e.old.size()))) == 1 && st.seqEq(e.now, e.old) == 1
}

func checkC06(r *Report) {
	// a buffer shorter than the packet
	runScens(r, append(plainScens(), propScens()...), func(c *Ctx, st *State, p *pkt) {
		if p.mustFail != "" || !c.encodable(st, p) {
			return
		}
		c.size(st, p.msg, func(st *State, nv, err Val) {
			c.split(st, func(st *State) {
				if !c.must(st, c.nilErr(st, err), "size", "Size fails for a packet that can be encoded: %s", c.errName(st, err)) {
					return
				}
				n := st.norm(st.affOf(nv))
				d := c.in.symKey("short", "short", 0, inf)
				st.assumeAff('g', n.addc(-1).minus(S(d)))
				if st.dead {
					return
				}
				c.encode(st, p.msg, S(d), "short buffer", func(st *State, e encRes) {
					if c.must(st, !e.ok, "short-refused", "Encode into a buffer of %s bytes succeeds although Size is %s", st.norm(S(d)), n) {
						c.must(st, c.isErr(st, e.err, "ErrInsufficientBufferSize"), "short-error", "Encode into a buffer of %s bytes fails with %s instead of insufficient buffer size", st.norm(S(d)), c.errName(st, e.err))
					}
					c.must(st, c.unchanged(st, e), "short-untouched", "Encode into a buffer that is too short leaves %s in it", e.now)
				})
			})
		})
	})
	// a packet that is too large
	var big []scen
	for _, v := range versions {
		for _, x := range []string{"", "Set"} {
			big = append(big, scen{name: "PUBLISH " + vname(v) + " of any size " + x, ver: v, typ: tPUBLISH, o: opts{variant: x, big: true}})
		}
	}
	big = append(big, scen{name: "PUBLISH v5 of any size with User Property", ver: 5, typ: tPUBLISH, o: opts{variant: "Set", big: true,
		props: func(c *Ctx, st *State) []*propVal { return []*propVal{c.propOf(st, propByID(0x26), 1, "")} }}})
	runScens(r, big, func(c *Ctx, st *State, p *pkt) {
		if p.mustFail != "" {
			return
		}
		for _, l := range append(append([]*Aff(nil), p.lps...), p.propLens()...) {
			if !st.mustGE(K(65535), l) {
				return
			}
		}
		if st.mustGE(K(1<<28-1), c.minBody(st, p)[0]) {
			return
		}
		c.size(st, p.msg, func(st *State, nv, err Val) {
			c.split(st, func(st *State) {
				if c.must(st, !c.nilErr(st, err), "oversize-size", "Size reports %s for a packet whose body is larger than 268435455 bytes", st.norm(st.affOf(nv))) {
					c.must(st, c.isErr(st, err, "ErrInvalidLength"), "oversize-error", "Size fails with %s instead of invalid length", c.errName(st, err))
				}
			})
			d := c.in.symKey("anybuf", "buffer", 0, 1<<42)
			c.encode(st, p.msg, S(d), "buffer", func(st *State, e encRes) {
				if c.must(st, !e.ok, "oversize-refused", "Encode succeeds for a packet whose body is larger than 268435455 bytes") {
					c.must(st, c.isErr(st, e.err, "ErrInvalidLength"), "oversize-error", "Encode fails with %s instead of invalid length", c.errName(st, e.err))
				}
				c.must(st, c.unchanged(st, e), "oversize-untouched", "Encode of an oversized packet writes into the buffer")
			})
		})
	})
}

func (p *pkt) propLens() (r []*Aff) {
	for _, x := range p.props {
		r = append(r, x.lps...)
	}
	return
}

func checkC08(r *Report) {
	runScens(r, append(plainScens(), propScens()...), func(c *Ctx, st *State, p *pkt) {
		c.observe(st, p.msg, func(st *State, o0 []obsVal) {
			c.size(st, p.msg, func(st *State, nv, err Val) {
				c.observe(st, p.msg, func(st *State, o1 []obsVal) {
					d := c.sameObs(st, o0, o1, nil)
					if !c.must(st, d == "", "size-pure", "Size changes %s", d) {
						return
					}
					d2 := c.in.symKey("anybuf", "buffer", 0, 1<<42)
					c.encode(st, p.msg, S(d2), "buffer", func(st *State, e encRes) {
						c.observe(st, p.msg, func(st *State, o2 []obsVal) {
							d := c.sameObs(st, o0, o2, nil)
							if !c.must(st, d == "", "encode-pure", "Encode changes %s", d) {
								return
							}
							c.encode(st, p.msg, S(d2), "buffer", func(st *State, f encRes) {
								if !c.must(st, e.ok == f.ok, "repeatable", "encoding a second time gives %s, the first time %s", c.errName(st, f.err), c.errName(st, e.err)) || !e.ok {
									return
								}
								m1, m2 := st.norm(st.affOf(e.n)), st.norm(st.affOf(f.n))
								if !c.must(st, st.decideAff('=', m1.minus(m2)) == 1, "repeatable", "encoding a second time reports %s bytes, the first time %s", m2, m1) {
									return
								}
								a, b := st.sub(e.now, K(0), m1), st.sub(f.now, K(0), m2)
								same := st.seqEq(a, b) == 1
								if !same {
									same = c.matchPkt(st, a, p) && c.matchPkt(st, b, p)
								}
								c.must(st, same, "repeatable", "encoding a second time gives %s, the first time %s", b, a)
							})
						})
					})
				})
			})
		})
	})
	received(r, func(c *Ctx, st *State, w *rcv) { c.pure(st, w) })
}

// pure demands that Size and Encode leave what a received packet reports.
func (c *Ctx) pure(st *State, w *rcv) {
	c.observe(st, w.m, func(st *State, o0 []obsVal) {
		c.sized(st, w, func(st *State, n *Aff, e encRes) {
			c.observe(st, w.m, func(st *State, o1 []obsVal) {
				d := c.sameObs(st, o0, o1, nil)
				if !c.must(st, d == "", "received-pure", "Size and Encode of the received %s change %s", w.wire, d) || !e.ok {
					return
				}
				c.encode(st, w.m, n, "second buffer", func(st *State, f encRes) {
					if c.must(st, f.ok, "received-repeatable", "encoding the received %s a second time fails with %s", w.wire, c.errName(st, f.err)) {
						c.must(st, st.decideAff('=', st.norm(st.affOf(e.n).minus(st.affOf(f.n)))) == 1, "received-repeatable", "encoding the received %s a second time reports another size", w.wire)
					}
				})
			})
		})
	})
}

// decodeAgain encodes, decodes the bytes and compares.
func (c *Ctx) decodeAgain(st *State, p *pkt, k func(st *State, q *Iface, n *Aff, e encRes, o0 []obsVal)) {
	c.observe(st, p.msg, func(st *State, o0 []obsVal) {
		c.encoded(st, p, func(st *State, n *Aff, e encRes) {
			if !e.ok {
				return // C05
			}
			m := st.norm(st.affOf(e.n))
			wire := &Slice{e.buf.obj, e.buf.off, m, m}
			c.fn(st, "Decode", []Val{cst(p.ver), wire}, func(st *State, r Val) {
				c.split(st, func(st *State) {
					if !c.must(st, c.nilErr(st, tup(r, 2)), "accepted", "the encoding %s is refused when decoded: %s", st.content(wire), c.errName(st, tup(r, 2))) {
						return
					}
					q, ok := st.finVal(tup(r, 0)).(*Iface)
					if !ok || q.t == nil || nilPtr(q.v) {
						c.must(st, false, "accepted", "decoding gives no packet")
						return
					}
					k(st, q, m, e, o0)
				})
			})
		})
	})
}

// a CONNECT that asks for nothing else reports the version of the packet
func checkRoundTrip(r *Report, ss []scen, again bool) {
	runScens(r, ss, func(c *Ctx, st *State, p *pkt) {
		c.decodeAgain(st, p, func(st *State, q *Iface, n *Aff, e encRes, o0 []obsVal) {
			if !c.must(st, typeName(q.t) == typeName(p.msg.t), "same-packet", "decoding gives a %s", typeName(q.t)) {
				return
			}
			c.observe(st, q, func(st *State, o1 []obsVal) {
				d := c.sameObs(st, o0, o1, func(n string) bool { return p.noID && strings.HasPrefix(n, "ID()") })
				if !c.must(st, d == "", "same-packet", "decoded packet differs: %s", d) || !again {
					return
				}
				c.size(st, q, func(st *State, nv, err Val) {
					c.split(st, func(st *State) {
						if !c.must(st, c.nilErr(st, err), "again", "Size of the decoded packet fails: %s", c.errName(st, err)) {
							return
						}
						n2 := st.norm(st.affOf(nv))
						if !c.must(st, st.decideAff('=', n2.minus(n)) == 1, "again", "Size of the decoded packet is %s, of the original %s", n2, n) {
							return
						}
						c.encode(st, q, n2, "second buffer", func(st *State, f encRes) {
							if !c.must(st, f.ok, "again", "the decoded packet cannot be encoded: %s", c.errName(st, f.err)) {
								return
							}
							c.must(st, c.matchPkt(st, st.sub(f.now, K(0), st.affOf(f.n)), p), "again", "the decoded packet encodes as %s", f.now)
						})
					})
				})
			})
		})
	})
}

func checkC09(r *Report) { checkRoundTrip(r, plainScens(), false) }
func checkC10(r *Report) { checkRoundTrip(r, propScens(), true) }
