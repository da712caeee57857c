package main

import (
	"fmt"
	"go/types"
)

// Checks of what a cloned PUBLISH carries, and of message expiry.

// forwarded properties (MQTT 5.0 3.3.2.3): those a server passes on unaltered.
var forwarded = map[int64]bool{0x01: true, 0x08: true, 0x09: true, 0x26: true, 0x03: true}

func obsOf(o []obsVal, name string) Val {
	for _, x := range o {
		if x.name == name {
			return x.v
		}
	}
	undecided("%s is not observed", name)
	return nil
}

// expiry reads the instant Expired reports.
func (c *Ctx) expiry(st *State, m *Iface, k func(st *State, v Val)) {
	c.get(st, m, "Expired", nil, func(st *State, r Val) { k(st, tup(r, 0)) })
}

func checkC23(r *Report) {
	type src struct {
		name  string
		props func(c *Ctx, st *State) []*propVal
	}
	for _, from := range versions {
		srcs := []src{{"", nil}}
		if from >= 5 {
			for i := range propTable {
				ps := &propTable[i]
				if !ps.types[tPUBLISH] {
					continue
				}
				srcs = append(srcs, src{" with " + ps.name, func(c *Ctx, st *State) []*propVal {
					return []*propVal{c.propOf(st, ps, 1, "")}
				}})
				if ps.rep[tPUBLISH] {
					srcs = append(srcs, src{" with two values of " + ps.name, func(c *Ctx, st *State) []*propVal {
						return []*propVal{c.propOf(st, ps, 2, "")}
					}})
				}
			}
			srcs = append(srcs, src{" with all properties", func(c *Ctx, st *State) (l []*propVal) {
				for i := range propTable {
					if ps := &propTable[i]; ps.types[tPUBLISH] {
						l = append(l, c.small(st, c.propOf(st, ps, 1, "")))
					}
				}
				return l
			}})
		}
		for _, to := range versions {
			for _, s := range srcs {
				for _, variant := range []string{"Set", ""} {
					for _, exp := range []bool{false, true} {
						if variant == "" && s.props != nil || exp && s.props != nil {
							continue
						}
						from, to, s, variant, exp := from, to, s, variant, exp
						name := fmt.Sprintf("Clone of a v%d PUBLISH%s for v%d", from, s.name, to)
						if variant == "" {
							name += " built by single setters"
						}
						if exp {
							name += " that expires"
						}
						r.add(name, func(c *Ctx) {
							c.base(c.state(), from, tPUBLISH, opts{variant: variant, props: s.props}, func(st *State, p *pkt) {
								if !exp {
									c.cloned(st, p, to, nil)
									return
								}
								e := c.instant(st)
								c.set(st, p.msg, "SetExpireAt", []Val{e}, func(st *State) { c.cloned(st, p, to, e) })
							})
						})
					}
				}
			}
		}
	}
	// a decoded packet
	for _, to := range versions {
		to := to
		r.add(fmt.Sprintf("Clone of a decoded v5 PUBLISH for v%d", to), func(c *Ctx) {
			c.useUv()
			st := c.state()
			topic, tl := c.blob("topic", 1, 200)
			pay, _ := c.blob("payload", 0, 1<<20)
			flags := c.num(0, 15, "flags")
			var ps []*propVal
			for i := range propTable {
				if x := &propTable[i]; x.types[tPUBLISH] && x.id != 0x18 {
					ps = append(ps, c.small(st, c.propOf(st, x, 1, "")))
				}
			}
			c.split(st, func(st *State) {
				body := cat(lpSeq(topic), constSeq("\x12\x34"), c.blocks(st, ps)[0], pay)
				st.restrict(flags, func(v int64) bool { return v&6 == 2 || v&6 == 4 })
				c.decodeSeq(st, 5, c.packet(st, tPUBLISH, S(flags), body), func(st *State, m *Iface, err Val) {
					if m == nil {
						return
					}
					p := &pkt{ver: 5, typ: tPUBLISH, msg: m, props: ps, topics: []*Seq{topic}, lps: []*Aff{S(tl)}}
					p.alts = [][]part{parts(seqs(lpSeq(topic), constSeq("\x12\x34")), p.propPart(), seqs(pay))}
					c.cloned(st, p, to, nil)
				})
			})
		})
	}
}

// instant is an unknown moment that is not the zero time.
func (c *Ctx) instant(st *State) Val {
	o, ok := c.in.prog.ImportedPackage("time").Pkg.Scope().Lookup("Time").(*types.TypeName)
	if !ok {
		undecided("time.Time not found")
	}
	v := c.in.fresh(st, o.Type(), "expiry")
	st.assume(c.in.boolKey("iszero|"+v.(*TimeV).s, "iszero"), false)
	return v
}

// cloned checks one clone.
func (c *Ctx) cloned(st *State, p *pkt, to int64, exp Val) {
	c.observe(st, p.msg, func(st *State, o0 []obsVal) {
		c.inv(st, p.msg, "Clone", []Val{cst(to)}, func(st *State, r Val) {
			c.split(st, func(st *State) {
				c.cells++
				if !c.nilErr(st, tup(r, 1)) {
					empty := st.mustEQ(p.topics[0].size(), K(0))
					c.must(st, empty, "cloneable", "a PUBLISH with a valid topic cannot be cloned: %s", c.errName(st, tup(r, 1)))
					return
				}
				q, ok := st.finVal(tup(r, 0)).(*Ptr)
				if !c.must(st, ok && q.obj != 0, "cloneable", "Clone gives no packet") {
					return
				}
				m := &Iface{types_ptr(c, "Publish"), q}
				c.observe(st, m, func(st *State, o1 []obsVal) {
					c.carries(st, p, m, to, o0, o1, exp)
				})
			})
		})
	})
}

func (c *Ctx) carries(st *State, p *pkt, m *Iface, to int64, o0, o1 []obsVal, exp Val) {
	c.must(st, c.same(st, obsOf(o1, "Version()"), cst(to)) == 1, "version", "the clone for v%d reports version %s", to, c.show(st, obsOf(o1, "Version()")))
	for _, n := range []string{"Type()", "Topic()", "Payload()", "QoS()", "Retain()"} {
		c.must(st, c.same(st, obsOf(o0, n), obsOf(o1, n)) == 1, "end-to-end", "%s of the clone is %s, of the original %s", n, c.show(st, obsOf(o1, n)), c.show(st, obsOf(o0, n)))
	}
	c.must(st, c.same(st, obsOf(o1, "Dup()"), cst(0)) == 1, "dup", "DUP of the clone is %s", c.show(st, obsOf(o1, "Dup()")))
	c.must(st, !c.nilErr(st, obsOf(o1, "ID()#1")), "identifier", "the clone has a packet identifier")
	var want []*propVal
	if p.ver >= 5 && to >= 5 {
		for _, x := range p.props {
			if forwarded[x.spec.id] {
				want = append(want, x)
			}
		}
	}
	for i := range propTable {
		ps := &propTable[i]
		n := "property " + ps.name
		var a, b Val
		for _, x := range o0 {
			if x.name == n {
				a = x.v
			}
		}
		for _, x := range o1 {
			if x.name == n {
				b = x.v
			}
		}
		switch {
		case hasProp(want, ps.id) == nil:
			c.must(st, b == nil, "properties", "the clone carries %s", ps.name)
		case b == nil:
			c.must(st, false, "properties", "the clone lacks %s", ps.name)
		default:
			c.must(st, c.same(st, a, b) == 1, "properties", "%s of the clone is %s, of the original %s", ps.name, c.show(st, b), c.show(st, a))
		}
	}
	c.expiry(st, m, func(st *State, v Val) {
		e := exp
		if e == nil {
			e = &TimeV{"zero", K(-1 << 61)}
		}
		c.must(st, c.same(st, v, e) == 1, "expiry", "the clone expires at %s, the original at %s", valStr(v), valStr(e))
	})
	// the original is as it was, also after everything a receiver does with the clone
	orig := func(st *State, after string) {
		c.observe(st, p.msg, func(st *State, o2 []obsVal) {
			d := c.sameObs(st, o0, o2, nil)
			c.must(st, d == "", "original", "the original differs after %s: %s", after, d)
		})
	}
	orig(st.clone(), "Clone")
	id := S(c.in.symKey("cloneid", "clone id", 1, 65535))
	c.set(st, m, "SetPacketID", []Val{&Num{id}}, func(st *State) {
		// what the clone is encoded as
		cp := &pkt{ver: to, typ: tPUBLISH, msg: m, props: want, topics: p.topics, lps: p.lps}
		qos, ret := obsOf(o0, "QoS()"), obsOf(o0, "Retain()")
		c.split(st.clone(), func(st *State) {
			if st.mustEQ(p.topics[0].size(), K(0)) || to != p.ver && len(p.props) > 0 {
				return // cannot be encoded; or nothing to compare beyond the case without properties
			}
			cp.flags = st.norm(st.affOf(ret).plus(st.affOf(qos).scale(2)))
			idq := &Seq{}
			if !st.mustEQ(st.affOf(qos), K(0)) {
				idq = seqNum(&Num{id}, 2)
			}
			pay, ok := obsOf(o0, "Payload()").(*Slice)
			if !ok {
				undecided("payload %s", valStr(obsOf(o0, "Payload()")))
			}
			cp.alts = [][]part{parts(seqs(lpSeq(p.topics[0]), idq), cp.propPart(), seqs(st.content(pay)))}
			c.encoded(st, cp, func(st *State, n *Aff, e encRes) {
				if !c.must(st, e.ok, "encodable", "the clone cannot be encoded: %s", c.errName(st, e.err)) {
					return
				}
				got := st.sub(e.now, K(0), st.affOf(e.n))
				c.must(st, c.matchPkt(st, got, cp), "encodable", "the clone is encoded as %s", got)
			})
		})
		c.set(st, m, "SetQoS", []Val{cst(1)}, func(st *State) {
			c.set(st, m, "SetDup", []Val{cst(1)}, func(st *State) {
				c.set(st, m, "SetRetain", []Val{cst(0)}, func(st *State) {
					c.set(st, m, "SetTopic", []Val{&Str{constSeq("another")}}, func(st *State) {
						c.set(st, m, "SetPayload", []Val{c.in.bytesOf(st, constSeq("other"), "other payload")}, func(st *State) {
							if to < 5 {
								orig(st, "changing the clone")
								return
							}
							up := c.small(st, c.propOf(st, propByID(0x26), 1, "late"))
							ct := c.small(st, c.propOf(st, propByID(0x03), 1, "late"))
							c.setProps(st, m, []*propVal{up, ct}, func(st *State) {
								orig(st.clone(), "changing the clone")
								c.set(st, m, "PropertiesDiscard", nil, func(st *State) { orig(st, "clearing the clone") })
							})
						})
					})
				})
			})
		})
	})
	// and the other way round
	c.set(st, p.msg, "SetPacketID", []Val{&Num{S(c.in.symKey("origid", "new id", 1, 65535))}}, func(st *State) {
		c.set(st, p.msg, "SetTopic", []Val{&Str{constSeq("another")}}, func(st *State) {
			c.set(st, p.msg, "PropertiesDiscard", nil, func(st *State) {
				c.observe(st, m, func(st *State, o2 []obsVal) {
					d := c.sameObs(st, o1, o2, nil)
					c.must(st, d == "", "original", "the clone differs after changing the original: %s", d)
				})
			})
		})
	})
}

// checkC32: with clock readings n1 <= ... <= nk taken during the call.
func checkC32(r *Report) {
	const sec = int64(1e9)
	for _, ver := range versions {
		ver := ver
		r.add(fmt.Sprintf("Expired of a v%d PUBLISH that does not expire", ver), func(c *Ctx) {
			c.newPkt(c.state(), ver, tPUBLISH, func(st *State, p *pkt) {
				c.get(st, p.msg, "Expired", nil, func(st *State, r Val) {
					c.cells++
					c.must(st, c.same(st, tup(r, 0), &TimeV{"zero", K(-1 << 61)}) == 1, "instant", "an expiry time is reported: %s", valStr(tup(r, 0)))
					c.must(st, st.eqNum(tup(r, 1), cst(0)) == 1 && st.eqNum(tup(r, 2), cst(0)) == 1, "never", "a packet without expiry reports %s, %s", c.show(st, tup(r, 1)), c.show(st, tup(r, 2)))
				})
			})
		})
		r.add(fmt.Sprintf("Expired of a v%d PUBLISH with an expiry time", ver), func(c *Ctx) {
			c.newPkt(c.state(), ver, tPUBLISH, func(st *State, p *pkt) {
				e := c.instant(st)
				t := e.(*TimeV).e
				c.set(st, p.msg, "SetExpireAt", []Val{e}, func(st *State) {
					c.get(st, p.msg, "Expired", nil, func(st *State, r Val) {
						c.cells++
						c.must(st, c.same(st, tup(r, 0), e) == 1, "instant", "the expiry time is reported as %s", valStr(tup(r, 0)))
						if !c.must(st, len(st.now) > 0, "clock", "the answer does not depend on the time") {
							return
						}
						first, last := st.now[0], st.now[len(st.now)-1]
						df := st.affOf(tup(r, 1))
						if st.mustEQ(st.affOf(tup(r, 2)), K(1)) {
							c.must(st, st.decideAff('g', first.addc(sec-1).minus(t)) == 1 || st.decideAff('g', last.addc(sec-1).minus(t)) == 1, "expired", "a packet that expires in %s ns is reported expired", st.norm(t.minus(last)))
							return
						}
						c.must(st, st.decideAff('g', df.addc(-1)) == 1, "remaining", "a packet is reported not expired with %s seconds left", df)
						// floor((t-last)/s) <= df <= floor((t-first)/s)
						c.must(st, st.decideAff('g', t.minus(first).minus(df.scale(sec))) == 1, "remaining", "a packet that expires in %s ns is reported to have %s seconds left", st.norm(t.minus(first)), df)
						c.must(st, st.decideAff('g', df.scale(sec).addc(sec-1).minus(t.minus(last))) == 1, "remaining", "a packet that expires in %s ns is reported to have only %s seconds left", st.norm(t.minus(last)), df)
					})
				})
			})
		})
	}
}
