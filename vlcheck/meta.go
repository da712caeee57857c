package main

import (
	"fmt"
	"go/types"
)

// Checks of tables and small readers: subscription options, packet types and versions, typed
// property values, incomplete input.

// byByte compares a result depending on a byte with a table: f gives the expected value.
func (c *Ctx) byByte(st *State, s *Sym, v Val, f func(b int64) int64, rule, what string) {
	c.cells++
	want := &Fin{s: s}
	for b := int64(0); b < 256; b++ {
		want.tab = append(want.tab, cst(f(b)))
	}
	c.must(st, st.eqNum(st.finVal(v), want) == 1, rule, "%s gives %s for %s", what, c.show(st, v), st.showSym(s))
}

func b2n(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func checkC33(r *Report) {
	acc := []struct {
		name string
		f    func(b int64) int64
	}{
		{"Raw", func(b int64) int64 { return b }},
		{"QoS", func(b int64) int64 { return b & 3 }},
		{"NL", func(b int64) int64 { return b >> 2 & 1 }},
		{"RAP", func(b int64) int64 { return b >> 3 & 1 }},
		{"RetainHandling", func(b int64) int64 { return b >> 4 & 3 }},
	}
	for _, a := range acc {
		a := a
		r.add("SubscriptionOptions."+a.name, func(c *Ctx) {
			s := c.num(0, 255, "options")
			c.get(c.state(), &Iface{c.typ("SubscriptionOptions"), sv(s)}, a.name, nil, func(st *State, v Val) {
				c.byByte(st, s, v, a.f, "own-bits", a.name)
			})
		})
	}
	for _, a := range []struct {
		name string
		f    func(b int64) int64
	}{
		{"IsValid", func(b int64) int64 { return b2n(b <= 2) }},
		{"IsValidFull", func(b int64) int64 { return b2n(b <= 2 || b == 0x80) }},
	} {
		a := a
		r.add("QosType."+a.name, func(c *Ctx) {
			s := c.num(0, 255, "qos")
			c.get(c.state(), &Iface{c.typ("QosType"), sv(s)}, a.name, nil, func(st *State, v Val) {
				c.byByte(st, s, v, a.f, "qos-domain", a.name)
			})
		})
	}
	r.add("QosType.Desc", func(c *Ctx) {
		seen := map[string]int64{}
		for q := int64(0); q < 3; q++ {
			q := q
			c.get(c.state(), &Iface{c.typ("QosType"), cst(q)}, "Desc", nil, func(st *State, v Val) {
				s := c.text1(st, v)
				p, dup := seen[s]
				c.must(st, s != "" && !dup, "qos-text", "the text of QoS %d is %q, as of %d", q, s, p)
				seen[s] = q
			})
		}
		s := c.num(3, 255, "qos")
		c.get(c.state(), &Iface{c.typ("QosType"), sv(s)}, "Desc", nil, func(st *State, v Val) {
			_, dup := seen[c.text1(st, v)]
			c.must(st, !dup, "qos-text", "an invalid QoS has the text of a valid one")
		})
	})
	// what a subscription carries is what its options were
	for _, name := range []string{"NewSubscribeTopic"} {
		name := name
		r.add("options of "+name, func(c *Ctx) {
			s := c.num(0, 255, "options")
			st := c.state()
			c.fn(st, name, []Val{c.in.bytesOf(st, constSeq("a/b"), "topic"), sv(s)}, func(st *State, rv Val) {
				c.split(st, func(st *State) {
					c.cells++
					if !c.nilErr(st, tup(rv, 1)) {
						return // C21
					}
					t := &Iface{types_ptr(c, "Topic"), st.finVal(tup(rv, 0))}
					c.get(st, t, "Ops", nil, func(st *State, v Val) {
						c.must(st, st.eqNum(v, sv(s)) == 1, "kept", "Ops() is %s for options %s", c.show(st, v), st.showSym(s))
					})
					c.get(st, t, "Topic", nil, func(st *State, v Val) {
						c.must(st, st.eqNum(tup(v, 1), sv(s)) == 1, "kept", "Topic() has options %s for options %s", c.show(st, tup(v, 1)), st.showSym(s))
						c.must(st, st.seqEq(st.content(st.finVal(tup(v, 0))), constSeq("a/b")) == 1, "kept", "Topic() is %s", c.show(st, tup(v, 0)))
					})
				})
			})
		})
	}
}

// text1 is a constant text.
func (c *Ctx) text1(st *State, v Val) string {
	x, ok := st.finVal(v).(*Str)
	if !ok {
		undecided("text %s", valStr(v))
	}
	s, ok := x.q.constStr()
	if !ok {
		undecided("text %s", x.q)
	}
	return s
}

func checkC34(r *Report) {
	for _, name := range []string{"Name", "Desc"} {
		name := name
		r.add("Type."+name, func(c *Ctx) {
			seen := map[string]int64{}
			for t := int64(0); t < 16; t++ {
				t := t
				c.get(c.state(), &Iface{c.typ("Type"), cst(t)}, name, nil, func(st *State, v Val) {
					c.cells++
					s := c.text1(st, v)
					p, dup := seen[s]
					c.must(st, s != "", "text", "%s of %s is empty", name, typeNames[t])
					c.must(st, !dup, "text", "%s of %s is %q, as of %s", name, typeNames[t], s, typeNames[p])
					if name == "Name" && t > 0 {
						c.must(st, s == typeNames[t], "text", "Name of %s is %q", typeNames[t], s)
					}
					seen[s] = t
				})
			}
			s := c.num(16, 255, "type")
			c.get(c.state(), &Iface{c.typ("Type"), sv(s)}, name, nil, func(st *State, v Val) {
				c.cells++
				x := c.text1(st, v)
				_, dup := seen[x]
				c.must(st, !dup, "text", "%s of an undefined type %s is %q", name, st.showSym(s), x)
			})
		})
	}
	r.add("Type.DefaultFlags", func(c *Ctx) {
		s := c.num(0, 255, "type")
		c.get(c.state(), &Iface{c.typ("Type"), sv(s)}, "DefaultFlags", nil, func(st *State, v Val) {
			c.byByte(st, s, v, func(b int64) int64 { return defaultFlags[b] }, "flags", "DefaultFlags")
		})
	})
	r.add("Type.Valid", func(c *Ctx) {
		s, v := c.num(0, 255, "type"), c.num(0, 255, "version")
		c.get(c.state(), &Iface{c.typ("Type"), sv(s)}, "Valid", []Val{sv(v)}, func(st *State, rv Val) {
			c.cells++
			fails := !c.nilErr(st, tup(rv, 1))
			known := st.member(v, func(x int64) bool { return x >= 3 && x <= 5 })
			c.must(st, st.must(known) != fails, "version", "Valid fails %v for version %s", fails, st.showSym(v))
			if fails {
				c.must(st, st.eqNum(tup(rv, 0), cst(0)) == 1, "version", "Valid is %s for the unknown version %s", c.show(st, tup(rv, 0)), st.showSym(v))
				return
			}
			last := int64(14)
			if st.must(st.member(v, func(x int64) bool { return x == 5 })) {
				last = 15
			}
			c.byByte(st, s, tup(rv, 0), func(b int64) int64 { return b2n(b >= 1 && b <= last) }, "types", fmt.Sprintf("Valid(version %s)", st.showSym(v)))
		})
	})
	r.add("ProtocolVersion.IsValid", func(c *Ctx) {
		s := c.num(0, 255, "version")
		c.get(c.state(), &Iface{c.typ("ProtocolVersion"), sv(s)}, "IsValid", nil, func(st *State, v Val) {
			ok := st.must(v)
			for b := int64(0); b < 256; b++ {
				if st.may(s, b) {
					c.must(st, ok == (b >= 3 && b <= 5), "version", "IsValid of protocol version %d is %v", b, ok)
				}
			}
		})
	})
	// a packet reports the metadata of its type
	for _, ver := range versions {
		for t := int64(1); t <= 15; t++ {
			if t == tAUTH && ver < 5 {
				continue
			}
			ver, t := ver, t
			r.add(fmt.Sprintf("metadata of a v%d %s", ver, typeNames[t]), func(c *Ctx) {
				c.newPkt(c.state(), ver, t, func(st *State, p *pkt) {
					for _, name := range []string{"Name", "Desc"} {
						name := name
						if c.methodOf(p.msg.t, name) == nil {
							continue
						}
						c.get(st.clone(), p.msg, name, nil, func(st *State, v Val) {
							s := c.text1(st, v)
							c.get(st, &Iface{c.typ("Type"), cst(t)}, name, nil, func(st *State, w Val) {
								c.cells++
								c.must(st, s == c.text1(st, w), "own-text", "%s of a %s is %q", name, typeNames[t], s)
							})
						})
					}
				})
			})
		}
	}
}

// Typed property values.

var kindType = map[int]string{kByte: "PropertyTypeByte", kShort: "PropertyTypeShort", kInt: "PropertyTypeInt", kVarInt: "PropertyTypeVarInt",
	kString: "PropertyTypeString", kPair: "PropertyTypeStringPair", kBinary: "PropertyTypeBinary"}

// readers of a kind: those that give a single value and those that give all values.
var kindOne = map[int]string{kByte: "AsByte", kShort: "AsShort", kInt: "AsInt", kVarInt: "AsInt", kString: "AsString", kPair: "AsStringPair", kBinary: "AsBinary"}
var kindAll = map[int]string{kInt: "AsInts", kVarInt: "AsInts", kPair: "AsStringPairs"}

var readers = []string{"AsByte", "AsShort", "AsInt", "AsInts", "AsString", "AsStringPair", "AsStringPairs", "AsBinary"}

// typed demands that a property value is given by the readers of its kind and no others.
func (c *Ctx) typed(st *State, x *Iface, ps *propSpec, want Val, listed bool) {
	c.get(st.clone(), x, "Type", nil, func(st *State, v Val) {
		c.must(st, st.eqNum(v, c.global(st, kindType[ps.kind]).(*Iface).v) == 1, "kind", "Type() of %s is %s", ps.name, c.show(st, v))
	})
	for _, name := range readers {
		name := name
		c.get(st.clone(), x, name, nil, func(st *State, rv Val) {
			c.cells++
			v, ok := tup(rv, 0), c.nilErr(st, tup(rv, 1))
			one, all := name == kindOne[ps.kind], name == kindAll[ps.kind]
			if !ok {
				c.must(st, c.isErr(st, tup(rv, 1), "ErrPropertyWrongType"), "wrong-type", "%s of %s fails with %s", name, ps.name, c.errName(st, tup(rv, 1)))
				c.must(st, c.void(st, v), "wrong-type", "%s of %s fails and gives %s", name, ps.name, c.show(st, v))
				due := one && !listed || all && (listed || ps.kind == kVarInt)
				c.must(st, !due, "readable", "%s of %s fails", name, ps.name)
				return
			}
			if !c.must(st, one && !listed || all, "wrong-type", "%s of %s (list: %v) succeeds with %s", name, ps.name, listed, c.show(st, v)) {
				return
			}
			w := want
			if all && !listed {
				w = c.list(st, nil, want)
			}
			c.must(st, c.same(st, v, w) == 1, "value", "%s of %s gives %s instead of %s", name, ps.name, c.show(st, v), c.show(st, w))
		})
	}
}

// void tells whether a value is the empty one of its kind.
func (c *Ctx) void(st *State, v Val) bool {
	switch x := st.finVal(v).(type) {
	case *Num, *Fin, *Cond:
		return st.eqNum(x, cst(0)) == 1
	case *Str:
		return st.seqEq(x.q, &Seq{}) == 1
	case *Slice:
		return x.obj == 0 || st.decideAff('=', st.norm(x.len)) == 1
	case *StructV:
		for _, e := range x.f {
			if !c.void(st, e) {
				return false
			}
		}
		return true
	}
	return false
}

// propRead gives the value of a property, through PropertyGet and through the iteration.
func (c *Ctx) propRead(st *State, m *Iface, ps *propSpec, k func(st *State, x *Iface)) {
	c.get(st.clone(), m, "PropertyGet", []Val{cst(ps.id)}, func(st *State, v Val) {
		x, ok := st.finVal(v).(*Iface)
		if c.must(st, ok && x.t != nil && !nilPtr(x.v), "readable", "%s is not reported", ps.name) {
			k(st, x)
		}
	})
	c.forEachProp(st, m, func(st *State, ids, vals []Val) {
		for i, id := range ids {
			if st.eqNum(id, cst(ps.id)) == 1 {
				x, ok := st.finVal(vals[i]).(*Iface)
				if c.must(st, ok && x.t != nil && !nilPtr(x.v), "readable", "the iteration gives no value of %s", ps.name) {
					k(st, x)
				}
			}
		}
	})
	for i := range propTable {
		o := &propTable[i]
		if o.id == ps.id {
			continue
		}
		c.get(st.clone(), m, "PropertyGet", []Val{cst(o.id)}, func(st *State, v Val) {
			x, ok := st.finVal(v).(*Iface)
			c.must(st, ok && x.t == nil, "absent", "PropertyGet of %s, which is not set, is not nil", o.name)
		})
	}
	id := c.in.symKey("otherID", "otherID", 43, 1<<32-1)
	c.get(st, m, "PropertyGet", []Val{sv(id)}, func(st *State, v Val) {
		x, ok := st.finVal(v).(*Iface)
		c.must(st, ok && x.t == nil, "absent", "PropertyGet of an undefined identifier is not nil")
	})
}

func checkC35(r *Report) {
	for t := int64(1); t <= 15; t++ {
		if t == tPINGREQ || t == tPINGRESP {
			continue
		}
		t := t
		for i := range propTable {
			ps := &propTable[i]
			if !ps.types[t] {
				continue
			}
			for _, n := range []int{1, 2} {
				if n == 2 && !ps.rep[t] {
					continue
				}
				n := n
				r.add(fmt.Sprintf("%d value(s) of %s set on %s", n, ps.name, typeNames[t]), func(c *Ctx) {
					c.newPkt(c.state(), 5, t, func(st *State, p *pkt) {
						v := c.small(st, c.propOf(st, ps, n, ""))
						c.inv(st, p.msg, "PropertySet", []Val{cst(ps.id), v.val}, func(st *State, rv Val) {
							c.split(st, func(st *State) {
								if !c.nilErr(st, rv) {
									return // C12
								}
								w := v.val.(*Iface)
								_, isList := w.t.Underlying().(*types.Slice)
								c.propRead(st, p.msg, ps, func(st *State, x *Iface) { c.typed(st, x, ps, w.v, isList && ps.kind != kBinary) })
							})
						})
					})
				})
				if !carried(ps, t) {
					continue
				}
				r.add(fmt.Sprintf("%d value(s) of %s in a decoded %s", n, ps.name, typeNames[t]), func(c *Ctx) {
					st := c.state()
					pre, post, flags := c.around(st, t)
					var props *Seq
					var want Val
					if n == 1 {
						v := c.wireProp(st, ps, "")
						props, want = v.encs[0](st), v.val.(*Iface).v
					} else {
						v := c.small(st, c.propOf(st, ps, n, ""))
						props, want = &Seq{}, v.val.(*Iface).v
						for _, e := range v.encs {
							props = cat(props, e(st))
						}
					}
					c.split(st, func(st *State) {
						q := cat(pre, c.uvSeq(st, props.size()), props, post)
						c.decodeSeq(st, 5, c.packet(st, t, K(flags), q), func(st *State, m *Iface, err Val) {
							if m == nil {
								return // C12
							}
							isList := n > 1 || ps.kind == kPair
							w := want
							if _, ok := st.finVal(w).(*Slice); isList && !ok {
								w = c.list(st, nil, want)
							}
							c.propRead(st, m, ps, func(st *State, x *Iface) { c.typed(st, x, ps, w, isList) })
						})
					})
				})
			}
		}
		for _, ver := range []int64{3, 4} {
			if t == tAUTH {
				continue
			}
			ver := ver
			r.add(fmt.Sprintf("properties of a v%d %s", ver, typeNames[t]), func(c *Ctx) {
				c.newPkt(c.state(), ver, t, func(st *State, p *pkt) {
					id := c.num(0, 1<<32-1, "id")
					c.get(st, p.msg, "PropertyGet", []Val{sv(id)}, func(st *State, v Val) {
						x, ok := st.finVal(v).(*Iface)
						c.must(st, ok && x.t == nil, "absent", "PropertyGet on a packet without properties is not nil")
					})
				})
			})
		}
	}
}

// Incomplete input.

func checkC36(r *Report) {
	// the reader of variable byte integers tells a field that goes on from a malformed one
	for n := 0; n <= 5; n++ {
		n := n
		r.add(fmt.Sprintf("uvarint of %d bytes that go on", n), func(c *Ctx) {
			st := c.state()
			q := &Seq{}
			for i := 0; i < n; i++ {
				q = cat(q, byteSeq(sv(c.num(128, 255, fmt.Sprintf("len%d", i)))))
			}
			if n == 5 {
				x, _ := c.blob("rest", 0, 1<<40)
				q = cat(q, x)
				c.in.widen = true
			}
			c.fn(st, "uvarint", []Val{c.in.bytesOf(st, q, "input")}, func(st *State, rv Val) {
				c.split(st, func(st *State) {
					c.cells++
					e := st.affOf(tup(rv, 1))
					switch {
					case n <= 3:
						c.must(st, st.decideAff('=', st.norm(e)) == 1, "asks-for-more", "%d bytes of a field that goes on are read with count %s", n, st.norm(e))
					case n == 5:
						c.must(st, st.decideAff('g', st.norm(e.scale(-1).addc(-1))) == 1, "final", "a field of more than four bytes is read with count %s", st.norm(e))
					}
				})
			})
		})
	}
	more := func(c *Ctx, st *State, o Outcome, what string) bool {
		return c.must(st, c.isErr(st, tup(o.ret, 2), "ErrInsufficientDataSize"), "asks-for-more", "%s is refused with %s", what, c.errName(st, tup(o.ret, 2)))
	}
	arbEach(r, nil, func(c *Ctx, ver, typ int64) {
		if typ == 0 || typ == tAUTH && ver < 5 {
			return
		}
		c.arb(ver, typ, func(st *State, a *arbIn, o Outcome) {
			if o.panicked {
				return // C01
			}
			c.split(st, func(st *State) {
				c.cells++
				if c.nilErr(st, tup(o.ret, 2)) {
					return // C03
				}
				good := st.member(a.hdr, func(b int64) bool {
					if typ == tPUBLISH {
						return b>>1&3 != 3
					}
					return b&15 == defaultFlags[typ]
				})
				if !st.must(good) {
					return // C16
				}
				total := st.affOf(tup(o.ret, 1))
				if !st.mustGE(a.cnt, K(1)) { // remaining length not complete or malformed
					if !st.mustGE(a.cnt, K(0)) {
						c.must(st, !c.isErr(st, tup(o.ret, 2), "ErrInsufficientDataSize"), "final", "a malformed remaining length is answered with a demand for more data")
					}
					return
				}
				size := K(1).plus(a.cnt).plus(a.val)
				have := a.body.size().addc(1)
				switch {
				case !st.mustGE(have, size): // incomplete
					more(c, st, o, "an incomplete packet")
					c.must(st, st.decideAff('=', st.norm(total.minus(size))) == 1, "total", "an incomplete packet of %s bytes is reported with %s", st.norm(size), st.norm(total))
				case st.mustGE(have, size.addc(1)): // more than one packet
					c.must(st, st.decideAff('=', st.norm(total.minus(size))) == 1, "total", "a packet of %s bytes followed by others is reported with %s", st.norm(size), st.norm(total))
					fallthrough
				default:
					c.must(st, !c.isErr(st, tup(o.ret, 2), "ErrInsufficientDataSize"), "final", "a complete packet is answered with a demand for more data")
				}
			})
		})
	})
	// the fixed header is malformed
	for _, ver := range versions {
		for typ := int64(1); typ <= 15; typ++ {
			if typ == tAUTH && ver < 5 {
				continue
			}
			ver, typ := ver, typ
			r.add(fmt.Sprintf("Decode(v%d, %s with a malformed remaining length)", ver, typeNames[typ]), func(c *Ctx) {
				for n := 1; n <= 4; n++ { // n bytes that continue, then a zero or, after four, anything
					for _, tail := range []bool{false, true} {
						st := c.state()
						q := byteSeq(sv(c.num(typ<<4, typ<<4+15, "first")))
						for i := 0; i < n; i++ {
							q = cat(q, byteSeq(sv(c.num(128, 255, fmt.Sprintf("len%d", i)))))
						}
						if n < 4 {
							q = cat(q, constSeq("\x00"))
						} else {
							q = cat(q, byteSeq(sv(c.num(0, 255, "len4"))))
						}
						if tail {
							x, _ := c.blob("rest", 0, 1<<40)
							q = cat(q, x)
						}
						c.fn(st, "Decode", []Val{cst(ver), c.in.bytesOf(st, q, "input")}, func(st *State, rv Val) {
							c.split(st, func(st *State) {
								c.cells++
								if c.nilErr(st, tup(rv, 2)) {
									return // C31
								}
								c.must(st, !c.isErr(st, tup(rv, 2), "ErrInsufficientDataSize"), "final", "a malformed remaining length is answered with a demand for more data")
							})
						})
					}
				}
			})
		}
	}
	// the fixed header is incomplete
	for _, ver := range versions {
		for typ := int64(1); typ <= 15; typ++ {
			if typ == tAUTH && ver < 5 {
				continue
			}
			ver, typ := ver, typ
			r.add(fmt.Sprintf("Decode(v%d, first bytes of a %s)", ver, typeNames[typ]), func(c *Ctx) {
				for n := 0; n <= 3; n++ {
					st := c.state()
					h := c.num(typ<<4, typ<<4+15, "first")
					st.restrict(h, func(b int64) bool {
						if typ == tPUBLISH {
							return b>>1&3 != 3
						}
						return b&15 == defaultFlags[typ]
					})
					q := byteSeq(sv(h))
					for i := 0; i < n; i++ {
						q = cat(q, byteSeq(sv(c.num(128, 255, fmt.Sprintf("len%d", i)))))
					}
					c.useUv()
					c.fn(st, "Decode", []Val{cst(ver), c.in.bytesOf(st, q, "input")}, func(st *State, rv Val) {
						c.split(st, func(st *State) {
							c.cells++
							if c.must(st, !c.nilErr(st, tup(rv, 2)), "asks-for-more", "the first %d bytes of a packet are accepted", n+1) {
								more(c, st, Outcome{ret: rv}, fmt.Sprintf("the first %d bytes of a packet", n+1))
							}
						})
					})
				}
			})
		}
	}
}
