package main

import (
	"fmt"
	"strings"
)

// Checks of single fields: reason codes, packet types, fixed header, packet identifiers, flags.

// packet wraps a body in a fixed header.
func (c *Ctx) packet(st *State, typ int64, flags *Aff, body *Seq) *Seq {
	return cat(byteSeq(&Num{flags.addc(typ << 4)}), c.uvSeq(st, body.size()), body)
}

// decodeSeq decodes a content; k gets the packet (nil when refused) and the error.
func (c *Ctx) decodeSeq(st *State, ver int64, q *Seq, k func(st *State, m *Iface, err Val)) {
	c.useUv()
	buf := c.in.roomy(st, q, "packet")
	c.fn(st, "Decode", []Val{cst(ver), buf}, func(st *State, r Val) {
		c.split(st, func(st *State) {
			c.cells++
			if !c.nilErr(st, tup(r, 2)) {
				k(st, nil, tup(r, 2))
				return
			}
			m, ok := st.finVal(tup(r, 0)).(*Iface)
			if !ok || m.t == nil || nilPtr(m.v) {
				c.must(st, false, "accepted", "Decode gives neither packet nor error")
				return
			}
			k(st, m, tup(r, 2))
		})
	})
}

// method calls an accessor.
func (c *Ctx) get(st *State, m *Iface, name string, args []Val, k func(st *State, v Val)) {
	c.inv(st, m, name, args, func(st *State, r Val) { c.split(st, func(st *State) { k(st, r) }) })
}

func codesOf(ver, typ int64) map[int64]bool {
	if ver >= 5 {
		return reasonCodesV5[typ]
	}
	return reasonCodesV3[typ]
}

func hasCodes(ver, typ int64) bool { return codesOf(ver, typ) != nil }

var codeAccessor = map[int64]string{tCONNACK: "ReturnCode", tPUBACK: "Reason", tPUBREC: "Reason", tPUBREL: "Reason", tPUBCOMP: "Reason",
	tDISCONNECT: "ReasonCode", tAUTH: "ReasonCode", tSUBACK: "ReturnCodes", tUNSUBACK: "ReturnCodes"}

func checkC14(r *Report) {
	// which codes exist at all and in which version; 1, 2 and 4 mean different things in both
	v5, any := set(), set()
	for _, t := range reasonCodesV5 {
		for v := range t {
			v5[v], any[v] = true, true
		}
	}
	for v := range v5ErrorCodes {
		v5[v], any[v] = true, true
	}
	for _, v := range []int64{0, 1, 2, 3, 4, 5} {
		any[v] = true
	}
	for _, q := range []struct {
		name string
		want func(v int64) (yes, free bool)
	}{
		{"IsValid", func(v int64) (bool, bool) { return any[v], false }},
		{"IsValidV3", func(v int64) (bool, bool) { return v <= 5, v == 0x80 }},
		{"IsValidV5", func(v int64) (bool, bool) { return v5[v], v == 1 || v == 2 || v == 4 }},
	} {
		q := q
		r.add("ReasonCode."+q.name, func(c *Ctx) {
			s := c.num(0, 255, "code")
			c.inv(c.state(), &Iface{c.typ("ReasonCode"), sv(s)}, q.name, nil, func(st *State, rv Val) {
				c.split(st, func(st *State) {
					ok := st.must(rv)
					for v := int64(0); v < 256; v++ {
						if yes, free := q.want(v); st.may(s, v) && !free {
							c.must(st, ok == yes, "table", "%s is %v for 0x%02X", q.name, ok, v)
						}
					}
				})
			})
		})
	}
	empty := func(ver int64) *Seq {
		if ver >= 5 {
			return constSeq("\x00")
		}
		return &Seq{}
	}
	for _, ver := range versions {
		for _, typ := range allTypes(ver) {
			ver, typ := ver, typ
			if !hasCodes(ver, typ) {
				continue
			}
			tab := codesOf(ver, typ)
			list := typ == tSUBACK || typ == tUNSUBACK
			// reading
			for n := 1; n <= 4; n++ {
				for bad := -1; bad < n; bad++ {
					n, bad := n, bad
					if !list && n > 1 {
						continue
					}
					name := fmt.Sprintf("Decode(v%d, %s with a code the standard defines)", ver, typeNames[typ])
					if bad >= 0 {
						name = fmt.Sprintf("Decode(v%d, %s with a code the standard does not define)", ver, typeNames[typ])
					}
					if list {
						name += fmt.Sprintf(" %d of %d", bad+1, n)
					}
					r.add(name, func(c *Ctx) {
						st := c.state()
						var codes []*Sym
						tail := &Seq{}
						for i := 0; i < n; i++ {
							i := i
							s := c.num(0, 255, fmt.Sprintf("code%d", i))
							st.restrict(s, func(v int64) bool { return tab[v] == (i != bad) })
							codes = append(codes, s)
							tail = cat(tail, byteSeq(sv(s)))
						}
						id := seqNum(sv(c.num(1, 65535, "id")), 2)
						var bodies []*Seq
						switch typ {
						case tCONNACK:
							bodies = append(bodies, cat(byteSeq(sv(c.num(0, 1, "sessionPresent"))), tail, empty(ver)))
						case tPUBACK, tPUBREC, tPUBREL, tPUBCOMP:
							bodies = append(bodies, cat(id, tail), cat(id, tail, empty(ver)))
						case tDISCONNECT, tAUTH:
							bodies = append(bodies, cat(tail, empty(ver)))
						default:
							bodies = append(bodies, cat(id, empty(ver), tail))
						}
						// the same with a property in front
						if list && ver >= 5 {
							rs := c.propOf(st, propByID(0x1F), 1, "")
							st.setRange(rs.lps[0].single(), 3, 3)
							bodies = append(bodies, cat(id, c.blocks(st, []*propVal{rs})[0], tail))
						}
						for _, b := range bodies {
							q := c.packet(st, typ, K(defaultFlags[typ]), b)
							c.decodeSeq(st.clone(), ver, q, func(st *State, m *Iface, err Val) {
								if bad >= 0 {
									c.must(st, m == nil, "undefined-refused", "%s with code %s is accepted", typeNames[typ], st.showSym(codes[bad]))
									return
								}
								if !c.must(st, m != nil, "defined-accepted", "%s with code %s is refused: %s", typeNames[typ], st.showSym(codes[0]), c.errName(st, err)) {
									return
								}
								c.get(st, m, codeAccessor[typ], nil, func(st *State, v Val) {
									var w Val = sv(codes[0])
									if list {
										var l []Val
										for _, s := range codes {
											l = append(l, sv(s))
										}
										w = c.list(st, c.typ("ReasonCode"), l...)
									}
									c.must(st, c.same(st, v, w) == 1, "code-reported", "%s reports code %s for %s", codeAccessor[typ], c.show(st, v), c.show(st, w))
								})
							})
						}
					})
				}
			}
			// setting
			setter := map[int64]string{tCONNACK: "SetReturnCode", tAUTH: "SetReasonCode", tSUBACK: "AddReturnCode", tUNSUBACK: "AddReturnCode"}[typ]
			if setter == "" {
				continue
			}
			for _, good := range []bool{true, false} {
				good := good
				for n := 0; n <= 2; n++ {
					n := n
					if n > 0 && !list {
						continue
					}
					name := fmt.Sprintf("%s v%d %s(code the standard %s)", typeNames[typ], ver, setter, map[bool]string{true: "defines", false: "does not define"}[good])
					if n > 0 {
						name = fmt.Sprintf("%s v%d AddReturnCodes(%d codes, good: %v)", typeNames[typ], ver, n, good)
					}
					r.add(name, func(c *Ctx) {
						c.newPkt(c.state(), ver, typ, func(st *State, p *pkt) {
							s := c.num(0, 255, "code")
							st.restrict(s, func(v int64) bool { return tab[v] == good })
							arg := sv(s)
							m := setter
							if n > 0 {
								m = "AddReturnCodes"
								l := []Val{sv(s)}
								if n == 2 {
									l = []Val{cst(0), sv(s)}
								}
								arg = c.list(st, c.typ("ReasonCode"), l...)
							}
							c.inv(st, p.msg, m, []Val{arg}, func(st *State, rv Val) {
								c.split(st, func(st *State) {
									c.cells++
									ok := c.nilErr(st, rv)
									if !good {
										c.must(st, !ok, "undefined-refused", "%s accepts code %s", m, st.showSym(s))
										return
									}
									if !c.must(st, ok, "defined-accepted", "%s refuses code %s: %s", m, st.showSym(s), c.errName(st, rv)) {
										return
									}
									c.get(st, p.msg, codeAccessor[typ], nil, func(st *State, v Val) {
										w := Val(sv(s))
										if list {
											w = c.list(st, nil, sv(s))
											if n == 2 {
												w = c.list(st, nil, cst(0), sv(s))
											}
										}
										c.must(st, c.same(st, v, w) == 1, "code-reported", "%s reports %s after setting %s", codeAccessor[typ], c.show(st, v), c.show(st, w))
									})
								})
							})
						})
					})
				}
			}
			if ver == 5 && typ != tCONNACK {
				r.add(fmt.Sprintf("IsValidForType(%s)", typeNames[typ]), func(c *Ctx) {
					s := c.num(0, 255, "code")
					c.inv(c.state(), &Iface{c.typ("ReasonCode"), sv(s)}, "IsValidForType", []Val{cst(typ)}, func(st *State, rv Val) {
						c.split(st, func(st *State) {
							ok := st.must(rv)
							for v := int64(0); v < 256; v++ {
								if st.may(s, v) {
									c.must(st, ok == tab[v], "table", "IsValidForType(%s) is %v for 0x%02X", typeNames[typ], ok, v)
								}
							}
						})
					})
				})
			}
		}
	}
}

// showSym lists the values a symbol can take.
func (st *State) showSym(s *Sym) string {
	e := st.norm(S(s))
	if e.isConst() {
		return fmt.Sprintf("0x%02X", e.c)
	}
	lo, hi := st.bounds(e)
	t := fmt.Sprintf("0x%02X..0x%02X", lo, hi)
	if d := st.mkDom(s); hi-lo < 300 {
		n := 0
		t = ""
		d.each(func(v int64) {
			if n++; n <= 8 {
				t += fmt.Sprintf(" 0x%02X", v)
			}
		})
		if n > 8 {
			t += fmt.Sprintf(" and %d more", n-8)
		}
	}
	return t
}

// may tells whether a symbol can have a value.
func (st *State) may(s *Sym, v int64) bool { return st.decideAff('=', S(s).addc(-v)) != 0 }

// goTypes is the Go type each packet type is represented by.
var goTypes = map[int64]string{tCONNECT: "Connect", tCONNACK: "ConnAck", tPUBLISH: "Publish", tPUBACK: "Ack", tPUBREC: "Ack", tPUBREL: "Ack", tPUBCOMP: "Ack",
	tSUBSCRIBE: "Subscribe", tSUBACK: "SubAck", tUNSUBSCRIBE: "UnSubscribe", tUNSUBACK: "UnSubAck", tPINGREQ: "PingReq", tPINGRESP: "PingResp", tDISCONNECT: "Disconnect", tAUTH: "Auth"}

// constructors are the functions that create a packet of one type.
var constructors = map[string]int64{"NewConnect": tCONNECT, "NewConnAck": tCONNACK, "NewPublish": tPUBLISH, "NewPubAck": tPUBACK, "NewPubRec": tPUBREC,
	"NewPubRel": tPUBREL, "NewPubComp": tPUBCOMP, "NewSubscribe": tSUBSCRIBE, "NewSubAck": tSUBACK, "NewUnSubscribe": tUNSUBSCRIBE, "NewUnSubAck": tUNSUBACK,
	"NewPingReq": tPINGREQ, "NewPingResp": tPINGRESP, "NewDisconnect": tDISCONNECT, "NewAuth": tAUTH}

func checkC15(r *Report) {
	identity := func(c *Ctx, st *State, m *Iface, ver, typ int64, how string) {
		c.must(st, typeName(m.t) == goTypes[typ], "right-type", "%s gives a %s", how, typeName(m.t))
		c.get(st, m, "Type", nil, func(st *State, v Val) {
			c.must(st, st.eqNum(v, cst(typ)) == 1, "right-type", "%s gives a packet that reports type %s", how, c.show(st, v))
		})
		c.get(st, m, "Version", nil, func(st *State, v Val) {
			c.must(st, st.eqNum(v, cst(ver)) == 1, "right-version", "%s gives a packet that reports version %s", how, c.show(st, v))
		})
	}
	for _, ver := range versions {
		ver := ver
		for t := int64(0); t < 256; t++ {
			t := t
			if t > 17 && t != 32 && t != 128 && t != 255 {
				continue
			}
			r.add(fmt.Sprintf("New(v%d, type %d)", ver, t), func(c *Ctx) {
				c.fn(c.state(), "New", []Val{cst(ver), cst(t)}, func(st *State, rv Val) {
					c.split(st, func(st *State) {
						c.cells++
						ok := c.nilErr(st, tup(rv, 1))
						m, isI := st.finVal(tup(rv, 0)).(*Iface)
						has := isI && m.t != nil && !nilPtr(m.v)
						if t == 0 || t > 15 || t == tAUTH && ver < 5 {
							c.must(st, !ok && !has, "refused", "New(v%d, type %d) gives %s, %s", ver, t, valStr(tup(rv, 0)), c.errName(st, tup(rv, 1)))
							return
						}
						if c.must(st, ok && has, "created", "New(v%d, %s) gives %s, %s", ver, typeNames[t], valStr(tup(rv, 0)), c.errName(st, tup(rv, 1))) {
							identity(c, st, m, ver, t, "New")
						}
					})
				})
			})
		}
		for name, t := range constructors {
			name, t := name, t
			if t == tAUTH && ver < 5 {
				continue
			}
			r.add(fmt.Sprintf("%s(v%d)", name, ver), func(c *Ctx) {
				if c.p.Members[name] == nil {
					return
				}
				c.fn(c.state(), name, []Val{cst(ver)}, func(st *State, rv Val) {
					c.cells++
					p, ok := st.finVal(rv).(*Ptr)
					if c.must(st, ok && p.obj != 0, "created", "%s gives no packet", name) {
						identity(c, st, &Iface{types_ptr(c, goTypes[t]), p}, ver, t, name)
					}
				})
			})
		}
	}
	arbEach(r, nil, func(c *Ctx, ver, typ int64) {
		c.arb(ver, typ, func(st *State, a *arbIn, o Outcome) {
			c.decoded(st, o, func(st *State, msg, total Val) {
				m, _ := msg.(*Iface)
				if m == nil || m.t == nil || nilPtr(m.v) {
					return // C01
				}
				if typ == 0 || typ == tAUTH && ver < 5 {
					c.must(st, false, "refused", "Decode accepts packet type %d in version %d", typ, ver)
					return
				}
				c.must(st, typeName(m.t) == goTypes[typ], "right-type", "Decode gives a %s", typeName(m.t))
				c.get(st, m, "Type", nil, func(st *State, v Val) {
					c.must(st, st.eqNum(v, cst(typ)) == 1, "right-type", "decoded packet reports type %s", c.show(st, v))
				})
				c.get(st, m, "Version", nil, func(st *State, v Val) {
					if typ != tCONNECT {
						c.must(st, st.eqNum(v, cst(ver)) == 1, "right-version", "decoded packet reports version %s", c.show(st, v))
						return
					}
					at := st.norm(a.cnt)
					lvl := st.byteAt(a.body, at.plus(st.affOf(st.beNum(a.body, at, 2))).addc(2))
					c.must(st, st.eqNum(v, lvl) == 1, "right-version", "decoded CONNECT reports version %s for level %s", c.show(st, v), c.show(st, lvl))
				})
			}, nil)
		})
	})
	runScens(r, plainScens(), func(c *Ctx, st *State, p *pkt) {
		c.encoded(st, p, func(st *State, n *Aff, e encRes) {
			if e.ok {
				b := st.affOf(st.byteAt(e.now, K(0)))
				c.must(st, st.mustGE(b, K(p.typ<<4)) && st.mustGE(K(p.typ<<4+15), b), "encodes-as", "the first byte of an encoded %s is %s", typeNames[p.typ], st.norm(b))
			}
		})
	})
}

func checkC16(r *Report) {
	arbEach(r, nil, func(c *Ctx, ver, typ int64) {
		c.arb(ver, typ, func(st *State, a *arbIn, o Outcome) {
			c.decoded(st, o, func(st *State, msg, total Val) {
				for f := int64(0); f < 16; f++ {
					if !st.may(a.hdr, typ<<4+f) {
						continue
					}
					if typ == tPUBLISH {
						c.must(st, f>>1&3 != 3, "qos3", "PUBLISH with flags %04b is accepted", f)
					} else {
						c.must(st, f == defaultFlags[typ], "reserved-flags", "%s with flags %04b is accepted", typeNames[typ], f)
					}
				}
			}, nil)
		})
	})
	runScens(r, plainScens(), func(c *Ctx, st *State, p *pkt) {
		c.encoded(st, p, func(st *State, n *Aff, e encRes) {
			if !e.ok {
				return // C05
			}
			b := st.affOf(st.byteAt(e.now, K(0)))
			c.must(st, st.decideAff('=', st.norm(b.minus(p.flags).addc(-p.typ<<4))) == 1, "first-byte", "the first byte of an encoded %s is %s, flags should be %s", typeNames[p.typ], st.norm(b), st.norm(p.flags))
		})
	})
}

func checkC20(r *Report) {
	arbEach(r, []int64{tPUBLISH, tPUBACK, tPUBREC, tPUBREL, tPUBCOMP, tSUBSCRIBE, tSUBACK, tUNSUBSCRIBE, tUNSUBACK}, func(c *Ctx, ver, typ int64) {
		c.arb(ver, typ, func(st *State, a *arbIn, o Outcome) {
			c.decoded(st, o, func(st *State, msg, total Val) {
				m, _ := msg.(*Iface)
				if m == nil || m.t == nil || nilPtr(m.v) {
					return
				}
				at := st.norm(a.cnt)
				if typ == tPUBLISH {
					if !st.must(st.member(a.hdr, func(v int64) bool { return v>>1&3 != 0 })) {
						c.get(st, m, "ID", nil, func(st *State, v Val) {
							c.must(st, !c.nilErr(st, tup(v, 1)), "qos0-no-id", "a decoded QoS 0 PUBLISH has packet identifier %s", c.show(st, tup(v, 0)))
						})
						return
					}
					at = at.plus(st.affOf(st.beNum(a.body, at, 2))).addc(2)
				}
				if !c.must(st, st.mustGE(a.body.size(), at.addc(2)), "complete", "%s without complete packet identifier is accepted", typeNames[typ]) {
					return
				}
				w := st.beNum(a.body, at, 2)
				c.must(st, st.mustGE(st.affOf(w), K(1)), "non-zero", "%s with packet identifier 0 is accepted", typeNames[typ])
				c.get(st, m, "ID", nil, func(st *State, v Val) {
					if c.must(st, c.nilErr(st, tup(v, 1)), "reported", "decoded %s reports no packet identifier", typeNames[typ]) {
						c.must(st, st.eqNum(tup(v, 0), w) == 1, "reported", "decoded %s reports packet identifier %s for %s", typeNames[typ], c.show(st, tup(v, 0)), c.show(st, w))
					}
				})
			}, nil)
		})
	})
	var ss []scen
	for _, s := range plainScens() {
		if needsID(s.typ) || s.typ == tPUBLISH {
			ss = append(ss, s)
		}
	}
	runScens(r, ss, func(c *Ctx, st *State, p *pkt) {
		forbidden := strings.HasPrefix(p.mustFail, "it has no packet id") || strings.HasPrefix(p.mustFail, "its packet id")
		if !forbidden {
			if p.typ == tPUBLISH && p.noID {
				c.encoded(st, p, func(st *State, n *Aff, e encRes) {
					if e.ok {
						c.must(st, c.matchPkt(st, st.sub(e.now, K(0), st.affOf(e.n)), p), "qos0-no-id", "a QoS 0 PUBLISH encodes as %s", e.now)
					}
				})
			}
			return
		}
		if strings.HasPrefix(p.mustFail, "it has no packet id") {
			c.get(st, p.msg, "ID", nil, func(st *State, v Val) {
				c.must(st, !c.nilErr(st, tup(v, 1)) && st.eqNum(tup(v, 0), cst(0)) == 1, "not-set", "a %s without packet identifier reports %s, %s", typeNames[p.typ], c.show(st, tup(v, 0)), c.errName(st, tup(v, 1)))
			})
		}
		c.encode(st, p.msg, S(c.in.symKey("anybuf", "buffer", 0, 1<<42)), "buffer", func(st *State, e encRes) {
			c.must(st, !e.ok, "emitted", "a %s is encoded although %s", typeNames[p.typ], p.mustFail)
		})
	})
	// a zero identifier
	for _, ver := range versions {
		for _, typ := range allTypes(ver) {
			ver, typ := ver, typ
			if !needsID(typ) {
				continue
			}
			r.add(fmt.Sprintf("%s v%d with packet identifier 0", typeNames[typ], ver), func(c *Ctx) {
				c.base(c.state(), ver, typ, opts{n: 1, variant: "plain"}, func(st *State, p *pkt) {
					c.set(st, p.msg, "SetPacketID", []Val{cst(0)}, func(st *State) {
						c.cells++
						c.encode(st, p.msg, S(c.in.symKey("anybuf", "buffer", 0, 1<<42)), "buffer", func(st *State, e encRes) {
							c.must(st, !e.ok, "emitted", "a %s with packet identifier 0 is encoded", typeNames[typ])
						})
					})
				})
			})
		}
	}
}

// member is the condition that a symbol has one of some values (0..255).
func (st *State) member(s *Sym, f func(v int64) bool) Val {
	t := &Fin{s: s}
	for v := int64(0); v < 256; v++ {
		t.tab = append(t.tab, cst(int64(b2i(f(v)))))
	}
	return t
}

func checkC24(r *Report) {
	for _, ver := range versions {
		for _, prior := range []string{"fresh", "set", "Set", "decoded"} {
			ver, prior := ver, prior
			prep := func(c *Ctx, k func(st *State, m *Iface)) {
				switch prior {
				case "fresh":
					c.newPkt(c.state(), ver, tPUBLISH, func(st *State, p *pkt) { k(st, p.msg) })
				case "set", "Set":
					v := prior
					if v == "set" {
						v = ""
					}
					c.base(c.state(), ver, tPUBLISH, opts{variant: v}, func(st *State, p *pkt) { k(st, p.msg) })
				case "decoded":
					st := c.state()
					f := c.num(0, 15, "flags")
					st.restrict(f, func(v int64) bool { return v>>1&3 != 3 && (v>>1&3 != 0 || v&8 == 0) })
					c.split(st, func(st *State) {
						id := seqNum(sv(c.in.symKey("id", "id", 1, 65535)), 2)
						if !st.must(st.member(f, func(v int64) bool { return v>>1&3 != 0 })) {
							id = &Seq{}
						}
						pr := &Seq{}
						if ver >= 5 {
							pr = constSeq("\x00")
						}
						q := c.packet(st, tPUBLISH, S(f), cat(lpSeq(constSeq("topic")), id, pr, constSeq("payload")))
						c.decodeSeq(st, ver, q, func(st *State, m *Iface, err Val) {
							if m != nil {
								k(st, m)
							}
						})
					})
				}
			}
			for _, what := range []string{"SetQoS", "SetDup", "SetRetain", "Set"} {
				what := what
				r.add(fmt.Sprintf("%s on a %s v%d PUBLISH", what, prior, ver), func(c *Ctx) {
					prep(c, func(st *State, m *Iface) {
						c.observe(st, m, func(st *State, o0 []obsVal) {
							hi := int64(1)
							if what == "SetQoS" || what == "Set" {
								hi = 255
							}
							x := c.in.symKey("new", "new", 0, hi)
							args := []Val{sv(x)}
							want := map[string]Val{map[string]string{"SetQoS": "QoS()", "SetDup": "Dup()", "SetRetain": "Retain()"}[what]: sv(x)}
							if what == "Set" {
								re, du := c.in.symKey("newRetain", "newRetain", 0, 1), c.in.symKey("newDup", "newDup", 0, 1)
								pay := c.in.bytesOf(st, constSeq("p2"), "p2")
								args = []Val{&Str{constSeq("t2")}, pay, sv(x), sv(re), sv(du)}
								want = map[string]Val{"QoS()": sv(x), "Retain()": sv(re), "Dup()": sv(du), "Topic()": &Str{constSeq("t2")}, "Payload()": pay}
							}
							c.inv(st, m, what, args, func(st *State, rv Val) {
								c.split(st, func(st *State) {
									c.cells++
									refused := false
									if t, void := rv.(Tuple); !(void && len(t) == 0) && rv != nil {
										refused = !c.nilErr(st, rv)
									}
									bad := hi == 255 && !st.mustGE(K(2), S(x))
									c.must(st, refused == bad, "qos-validated", "%s with value %s: error is %s", what, st.showSym(x), valStr(rv))
									c.observe(st, m, func(st *State, o1 []obsVal) {
										if refused {
											d := c.sameObs(st, o0, o1, nil)
											c.must(st, d == "", "refused-unchanged", "a refused %s changes %s", what, d)
											return
										}
										d := c.sameObs(st, o0, o1, func(n string) bool { return want[n] != nil || n == "Flags()" })
										c.must(st, d == "", "others-untouched", "%s changes %s", what, d)
										for _, o := range o1 {
											if w := want[o.name]; w != nil {
												c.must(st, c.same(st, o.v, w) == 1, "value-set", "after %s, %s is %s instead of %s", what, o.name, c.show(st, o.v), c.show(st, w))
											}
										}
									})
								})
							})
						})
					})
				})
			}
		}
	}
}
