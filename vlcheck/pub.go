package main

import (
	"fmt"
	"strings"
)

// Checks of PUBLISH, SUBSCRIBE and UNSUBSCRIBE: what is accepted, delivered and emitted.

func checkC19(r *Report) {
	type variant struct {
		name    string
		block   func(c *Ctx, st *State) (q *Seq, alias *Sym)
		refused bool
	}
	for _, ver := range versions {
		vs := []variant{{"", func(c *Ctx, st *State) (*Seq, *Sym) { return &Seq{}, nil }, false}}
		if ver >= 5 {
			one := func(id int64, refused bool) variant {
				ps := propByID(id)
				return variant{" with " + ps.name, func(c *Ctx, st *State) (*Seq, *Sym) {
					p := c.wireProp(st, ps, "")
					return c.blocks(st, []*propVal{p})[0], nil
				}, refused}
			}
			vs = []variant{
				{" without properties", func(c *Ctx, st *State) (*Seq, *Sym) { return constSeq("\x00"), nil }, false},
				{" with a topic alias", func(c *Ctx, st *State) (*Seq, *Sym) {
					a := c.num(0, 65535, "alias")
					return cat(constSeq("\x03\x23"), seqNum(sv(a), 2)), a
				}, false},
				{" with a topic alias and a content type", func(c *Ctx, st *State) (*Seq, *Sym) {
					a := c.num(0, 65535, "alias")
					return cat(constSeq("\x07\x03\x00\x01x\x23"), seqNum(sv(a), 2)), a
				}, false},
				one(0x18, true), one(0x02, false), one(0x26, false),
			}
		}
		for _, v := range vs {
			for qos := int64(0); qos < 3; qos++ {
				ver, v, qos := ver, v, qos
				r.add(fmt.Sprintf("Decode(v%d PUBLISH QoS %d%s)", ver, qos, v.name), func(c *Ctx) {
					st := c.state()
					flags := c.num(0, 15, "flags")
					st.restrict(flags, func(v int64) bool { return v>>1&3 == qos })
					topic, tl := c.blob("topic", 0, 65535)
					pay, _ := c.blob("payload", 0, 1<<20)
					id := c.num(0, 65535, "id")
					block, alias := v.block(c, st)
					body := lpSeq(topic)
					if qos > 0 {
						body = cat(body, seqNum(sv(id), 2))
					}
					body = cat(body, block, pay)
					c.split(st, func(st *State) {
						c.decodeSeq(st, ver, c.packet(st, tPUBLISH, S(flags), body), func(st *State, m *Iface, err Val) {
							// what the standard demands besides the characters of the topic: 1 holds, 0 broken, -1 unknown
							and := func(a, b int) int {
								if a == 0 || b == 0 {
									return 0
								}
								if a == 1 && b == 1 {
									return 1
								}
								return -1
							}
							ok := 1
							if v.refused {
								ok = 0
							}
							if qos == 0 {
								set, clear := st.may(flags, 8) || st.may(flags, 9), st.may(flags, 0) || st.may(flags, 1)
								switch {
								case set && clear:
									ok = and(ok, -1)
								case set:
									ok = 0
								}
							} else {
								ok = and(ok, neg3(st.decideAff('=', S(id))))
							}
							named := st.decideAff('g', S(tl).addc(-1))
							al := 0
							if alias != nil {
								al = neg3(st.decideAff('=', S(alias)))
							}
							if ver < 5 {
								ok = and(ok, named)
							} else {
								ok = and(ok, or3(named, al))
							}
							if m != nil {
								c.must(st, ok == 1, "accepted", "a PUBLISH with QoS %d, flags %s, identifier %s, topic length %s, alias %v%s is accepted", qos, st.showSym(flags), st.norm(S(id)), st.norm(S(tl)), al, v.name)
								c.within(st, gPublish, topic, "topic", "a PUBLISH is accepted")
								c.deliveredPublish(st, m, topic, pay, qos, flags, id)
								return
							}
							if ok == 0 {
								return
							}
							t := st
							if ok < 0 { // only where it holds
								t = st.clone()
								if qos == 0 {
									t.restrict(flags, func(v int64) bool { return v < 8 })
								} else {
									t.setRange(id, 1, 65535)
								}
								if al != 0 {
									if named != 1 {
										t.setRange(alias, 1, 65535)
									}
								} else {
									t.setRange(tl, 1, 65535)
								}
								if t.dead {
									return
								}
							}
							if alias != nil && st.decideAff('!', S(alias)) != 1 {
								// an alias of zero is an error of its own
								t = t.clone()
								t.setRange(alias, 1, 65535)
								if t.dead {
									return
								}
							}
							no, w := c.outside(t, gPublish, topic)
							c.must(st, no, "permitted", "a PUBLISH with topic %s is refused with %s", w, c.errName(st, err))
						})
					})
				})
			}
		}
	}
	// emitting
	var ss []scen
	for _, s := range append(plainScens(), propScens()...) {
		if s.typ == tPUBLISH {
			ss = append(ss, s)
		}
	}
	runScens(r, ss, func(c *Ctx, st *State, p *pkt) {
		c.encode(st, p.msg, S(c.in.symKey("anybuf", "buffer", 0, 1<<42)), "buffer", func(st *State, e encRes) {
			if strings.Contains(p.mustFail, "DUP") || strings.Contains(p.mustFail, "topic") {
				c.must(st, !e.ok, "emitted", "a PUBLISH is encoded although %s", p.mustFail)
			}
			if e.ok {
				c.within(st, gPublish, p.topics[0], "emitted-topic", "a PUBLISH is encoded")
			}
		})
	})
	r.add("Encode(v4 PUBLISH without topic, with an alias set under v5)", func(c *Ctx) {
		c.newPkt(c.state(), 5, tPUBLISH, func(st *State, p *pkt) {
			c.setProps(st, p.msg, []*propVal{c.propOf(st, propByID(0x23), 1, "")}, func(st *State) {
				c.inv(st, p.msg, "SetVersion", []Val{cst(4)}, func(st *State, _ Val) {
					c.encode(st, p.msg, S(c.in.symKey("anybuf", "buffer", 0, 1<<42)), "buffer", func(st *State, e encRes) {
						c.must(st, !e.ok, "emitted", "a v4 PUBLISH with an empty topic is encoded")
					})
				})
			})
		})
	})
	// topics put in place without passing a setter
	for _, ver := range versions {
		ver := ver
		r.add(fmt.Sprintf("Encode(v%d PUBLISH whose topic was validated for another version)", ver), func(c *Ctx) {
			for _, from := range versions {
				c.newPkt(c.state(), from, tPUBLISH, func(st *State, p *pkt) {
					q, l := c.blob("topic", 0, 65535)
					c.set(st, p.msg, "SetTopic", []Val{&Str{q}}, func(st *State) {
						c.inv(st, p.msg, "SetVersion", []Val{cst(ver)}, func(st *State, _ Val) {
							c.encode(st, p.msg, S(c.in.symKey("anybuf", "buffer", 0, 1<<42)), "buffer", func(st *State, e encRes) {
								if e.ok {
									c.must(st, st.mustGE(S(l), K(1)), "emitted", "a PUBLISH with an empty topic is encoded")
									c.within(st, gPublish, q, "emitted-topic", "a PUBLISH is encoded")
								}
							})
						})
					})
				})
			}
		})
	}
}

func neg3(a int) int {
	if a < 0 {
		return a
	}
	return 1 - a
}
func or3(a, b int) int {
	if a == 1 || b == 1 {
		return 1
	}
	if a == 0 && b == 0 {
		return 0
	}
	return -1
}

func (c *Ctx) deliveredPublish(st *State, m *Iface, topic, pay *Seq, qos int64, flags, id *Sym) {
	eq := func(name string, want Val) {
		c.get(st, m, name, nil, func(st *State, v Val) {
			c.must(st, c.same(st, v, want) == 1, "delivered", "%s() of a PUBLISH is %s instead of %s", name, c.show(st, v), c.show(st, want))
		})
	}
	eq("Topic", &Str{topic})
	c.get(st, m, "Payload", nil, func(st *State, v Val) {
		c.must(st, st.seqEq(st.content(st.finVal(v)), pay) == 1, "delivered", "Payload() of a PUBLISH is %s instead of %s", c.show(st, v), pay)
	})
	eq("QoS", cst(qos))
	eq("Dup", st.member(flags, func(v int64) bool { return v&8 != 0 }))
	eq("Retain", st.member(flags, func(v int64) bool { return v&1 != 0 }))
	if qos > 0 {
		c.get(st, m, "ID", nil, func(st *State, v Val) {
			c.must(st, c.nilErr(st, tup(v, 1)) && st.eqNum(tup(v, 0), sv(id)) == 1, "delivered", "ID() of a PUBLISH is %s instead of %s", c.show(st, v), st.showSym(id))
		})
	}
}

// opsOK is what the standard demands of the options of a subscription.
func opsOK(ver, v int64) bool {
	if v&3 == 3 || v>>4&3 == 3 {
		return false
	}
	if ver >= 5 {
		return v&0xC0 == 0
	}
	return v&0xFC == 0
}

// entry is a topic in a list: arbitrary or fixed, with its options.
type entry struct {
	text *Seq
	ops  *Sym // nil for UNSUBSCRIBE
	free bool
}

func checkC21(r *Report) {
	fixed := []string{"a", "level/one/+", "$SYS/#", "$share/group/b/+/c", "#", "some/longer/topic/filter/with/many/levels/é"}
	for _, typ := range []int64{tSUBSCRIBE, tUNSUBSCRIBE} {
		for _, ver := range versions {
			typ, ver := typ, ver
			entries := func(c *Ctx, st *State, n, free int, legal bool) (es []entry, body *Seq) {
				body = seqNum(sv(c.num(1, 65535, "id")), 2)
				if ver >= 5 {
					body = cat(body, constSeq("\x00"))
				}
				for i := 0; i < n; i++ {
					e := entry{text: constSeq(fixed[i])}
					if i == free {
						e.free = true
						e.text, _ = c.blob("topic", 0, 65535)
					}
					body = cat(body, lpSeq(e.text))
					if typ == tSUBSCRIBE {
						e.ops = c.num(0, 255, fmt.Sprintf("options%d", i))
						if i != free || legal {
							shared := strings.HasPrefix(fixed[i], "$share")
							st.restrict(e.ops, func(v int64) bool { return opsOK(ver, v) && (i == free || !shared || v&4 == 0) })
						}
						body = cat(body, byteSeq(sv(e.ops)))
					}
					es = append(es, e)
				}
				return
			}
			deliver := func(c *Ctx, st *State, m *Iface, es []entry) {
				c.forEachTopic(st, m, func(st *State, ts []Val) {
					if !c.must(st, len(ts) == len(es), "delivered", "%d topics are delivered of %d sent", len(ts), len(es)) {
						return
					}
					for i := range es {
						e := es[i]
						t := &Iface{types_ptr(c, "Topic"), ts[i]}
						c.get(st.clone(), t, "Ops", nil, func(st *State, v Val) {
							want := Val(cst(0))
							if e.ops != nil {
								want = sv(e.ops)
							}
							c.must(st, st.eqNum(v, want) == 1, "delivered", "topic %d has options %s instead of %s", i, c.show(st, v), c.show(st, want))
						})
						c.split(st, func(st *State) { c.parsed(st, t, e.text, func(st *State) {}) })
					}
				})
			}
			judge := func(c *Ctx, st *State, m *Iface, err Val, es []entry) {
				var f *entry
				for i := range es {
					if es[i].free {
						f = &es[i]
					}
				}
				if m == nil {
					if f == nil {
						c.must(st, false, "permitted", "a well-formed %s is refused with %s", typeNames[typ], c.errName(st, err))
						return
					}
					for _, nl := range []int64{0, 4} {
						t, g := st.clone(), gFilter
						if nl != 0 {
							g = gFilterPlain
						}
						if f.ops != nil {
							t.restrict(f.ops, func(v int64) bool { return opsOK(ver, v) && v&4 == nl })
						} else if nl != 0 {
							continue
						}
						if t.dead {
							continue
						}
						no, w := c.outside(t, g, f.text)
						ops := ""
						if f.ops != nil {
							ops = " and options " + t.showSym(f.ops)
						}
						c.must(t, no, "permitted", "a %s with topic %s%s is refused with %s", typeNames[typ], w, ops, c.errName(st, err))
					}
					return
				}
				if f != nil {
					if f.ops != nil {
						for v := int64(0); v < 256; v++ {
							if st.may(f.ops, v) {
								c.must(st, opsOK(ver, v), "options", "a v%d SUBSCRIBE with options 0x%02X is accepted", ver, v)
							}
						}
						t := st.clone()
						if t.restrict(f.ops, func(v int64) bool { return v&4 != 0 }); !t.dead {
							c.within(t, gFilterPlain, f.text, "no-local", "a SUBSCRIBE with No Local is accepted")
						}
					}
					if !c.within(st, gFilter, f.text, "filter", "a "+typeNames[typ]+" is accepted") {
						return
					}
				}
				deliver(c, st, m, es)
			}
			for n := 0; n <= 3; n++ {
				for free := -1; free < n; free++ {
					n, free := n, free
					if n == 0 {
						r.add(fmt.Sprintf("Decode(v%d %s without topics)", ver, typeNames[typ]), func(c *Ctx) {
							st := c.state()
							_, body := entries(c, st, 0, -1, false)
							c.decodeSeq(st, ver, c.packet(st, typ, K(2), body), func(st *State, m *Iface, err Val) {
								c.must(st, m == nil, "no-topics", "a %s without topics is accepted", typeNames[typ])
							})
						})
						continue
					}
					what := "of fixed topics"
					if free >= 0 {
						what = fmt.Sprintf("with any topic at %d", free)
					}
					r.add(fmt.Sprintf("Decode(v%d %s %d topics %s)", ver, typeNames[typ], n, what), func(c *Ctx) {
						st := c.state()
						es, body := entries(c, st, n, free, false)
						c.split(st, func(st *State) {
							c.decodeSeq(st, ver, c.packet(st, typ, K(2), body), func(st *State, m *Iface, err Val) { judge(c, st, m, err, es) })
						})
					})
				}
			}
			r.add(fmt.Sprintf("Decode(v%d %s %d topics)", ver, typeNames[typ], len(fixed)), func(c *Ctx) {
				st := c.state()
				es, body := entries(c, st, len(fixed), -1, false)
				c.split(st, func(st *State) {
					c.decodeSeq(st, ver, c.packet(st, typ, K(2), body), func(st *State, m *Iface, err Val) { judge(c, st, m, err, es) })
				})
			})
			// cut short within the last entry
			r.add(fmt.Sprintf("Decode(v%d %s whose last entry is incomplete)", ver, typeNames[typ]), func(c *Ctx) {
				for n := 1; n <= 3; n++ {
					for cut := int64(1); cut < 4; cut++ {
						st := c.state()
						_, body := entries(c, st, n, -1, true)
						last := int64(len(fixed[n-1])) + 2
						if typ == tSUBSCRIBE {
							last++
						}
						if cut >= last {
							continue
						}
						body = st.sub(body, K(0), body.size().addc(-cut))
						c.decodeSeq(st, ver, c.packet(st, typ, K(2), body), func(st *State, m *Iface, err Val) {
							c.must(st, m == nil, "complete", "a %s whose last of %d topics lacks %d bytes is accepted", typeNames[typ], n, cut)
						})
					}
				}
			})
		}
	}
	// emitting
	var ss []scen
	for _, s := range plainScens() {
		if s.typ == tSUBSCRIBE || s.typ == tUNSUBSCRIBE {
			ss = append(ss, s)
		}
	}
	runScens(r, ss, func(c *Ctx, st *State, p *pkt) {
		if p.mustFail == "it has no topics" {
			c.encode(st, p.msg, S(c.in.symKey("anybuf", "buffer", 0, 1<<42)), "buffer", func(st *State, e encRes) {
				c.must(st, !e.ok, "emitted", "a %s without topics is encoded", typeNames[p.typ])
			})
		}
	})
	// options
	r.add("SubscriptionOptions", func(c *Ctx) {
		ops := c.num(0, 255, "options")
		m := &Iface{c.typ("SubscriptionOptions"), sv(ops)}
		for _, a := range []struct {
			name string
			f    func(v int64) int64
		}{{"QoS", func(v int64) int64 { return v & 3 }}, {"NL", func(v int64) int64 { return v >> 2 & 1 }}, {"RAP", func(v int64) int64 { return v >> 3 & 1 }},
			{"RetainHandling", func(v int64) int64 { return v >> 4 & 3 }}, {"Raw", func(v int64) int64 { return v }}} {
			a := a
			for v := int64(0); v < 256; v++ {
				st := c.state()
				st.setRange(ops, v, v)
				c.get(st, m, a.name, nil, func(st *State, x Val) {
					c.must(st, c.same(st, x, cst(a.f(v))) == 1, "options", "%s() of options 0x%02X is %s", a.name, v, c.show(st, x))
				})
			}
		}
	})
}
