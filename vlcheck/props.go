package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Checks of MQTT 5 properties: where they are accepted, what setting does and what remains.

func baseOpts(t int64) opts {
	switch t {
	case tPUBLISH:
		return opts{variant: "Set"}
	case tSUBSCRIBE, tUNSUBSCRIBE, tSUBACK, tUNSUBACK:
		return opts{n: 1, variant: "plain"}
	}
	return opts{}
}

// small restricts a property value to what MQTT permits whatever the property, with short contents.
func (c *Ctx) small(st *State, p *propVal) *propVal {
	for _, l := range p.lps {
		st.setRange(l.single(), 3, 3)
	}
	each := func(v Val) {
		n, ok := v.(*Num)
		if !ok {
			return
		}
		s := n.e.single()
		switch p.spec.kind {
		case kByte:
			st.setRange(s, 0, 1)
		case kVarInt:
			st.setRange(s, 1, 100)
		default:
			lo, hi := st.rng(s)
			if lo == 0 {
				st.setRange(s, 1, hi)
			}
		}
	}
	i := p.val.(*Iface)
	if l, ok := i.v.(*Slice); ok && l.obj != 0 {
		if a, ok := st.get(l.obj).(*ArrV); ok {
			for _, e := range a.e {
				each(e)
			}
		}
	} else {
		each(i.v)
	}
	return p
}

// wireProp is a property value as it may appear on the wire.
func (c *Ctx) wireProp(st *State, ps *propSpec, tag string) *propVal {
	if ps.id == 0x08 { // a topic name
		q := constSeq("rsp")
		return &propVal{spec: ps, val: &Iface{types.Typ[types.String], &Str{q}},
			encs: []func(*State) *Seq{func(*State) *Seq { return cat(constSeq("\x08"), lpSeq(q)) }}}
	}
	return c.small(st, c.propOf(st, ps, 1, tag))
}

// around gives well-formed v5 bodies of a packet type with a hole for its property block: what comes
// before and after.
func (c *Ctx) around(st *State, t int64) (pre, post *Seq, flags int64) {
	id := seqNum(sv(c.in.symKey("id", "id", 1, 65535)), 2)
	flags = defaultFlags[t]
	none := &Seq{}
	switch t {
	case tCONNECT:
		return constSeq("\x00\x04MQTT\x05\x02\x00\x0a"), constSeq("\x00\x02id"), flags
	case tCONNACK:
		return constSeq("\x00\x00"), none, flags
	case tPUBLISH:
		return constSeq("\x00\x02ab"), constSeq("payload"), flags
	case tPUBACK, tPUBREC, tPUBREL, tPUBCOMP:
		return cat(id, constSeq("\x00")), none, flags
	case tSUBSCRIBE:
		return id, constSeq("\x00\x02ab\x01"), flags
	case tUNSUBSCRIBE:
		return id, constSeq("\x00\x02ab"), flags
	case tSUBACK, tUNSUBACK:
		return id, constSeq("\x00"), flags
	case tDISCONNECT, tAUTH:
		return constSeq("\x00"), none, flags
	}
	return nil, nil, 0
}

// withWill is a CONNECT with a hole for the properties of its will.
func withWill() (pre, post *Seq) {
	return constSeq("\x00\x04MQTT\x05\x06\x00\x0a\x00\x00\x02id"), constSeq("\x00\x02ab\x00\x02pp")
}

var willProps = set(0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x26)

// carried tells whether a property may appear on the wire in a packet type.
func carried(ps *propSpec, t int64) bool { return ps.types[t] && !(t == tPUBLISH && ps.id == 0x18) }

func checkC12(r *Report) {
	// setting
	for t := int64(1); t <= 15; t++ {
		t := t
		r.add("PropertySet on "+typeNames[t], func(c *Ctx) {
			for i := range propTable {
				ps := &propTable[i]
				for _, n := range []int{1, 2} {
					if n == 2 && ps.kind != kVarInt && ps.kind != kPair {
						continue
					}
					c.newPkt(c.state(), 5, t, func(st *State, p *pkt) {
						v := c.propOf(st, ps, n, "")
						for _, l := range v.lps {
							st.assumeAff('g', K(65535).minus(l))
						}
						c.inv(st, p.msg, "PropertySet", []Val{cst(ps.id), v.val}, func(st *State, rv Val) {
							c.split(st, func(st *State) {
								c.cells++
								ok := c.nilErr(st, rv)
								want := ps.types[t] && (n == 1 || ps.rep[t])
								c.must(st, ok == want, "set-acceptance", "setting %d value(s) of %s on %s gives %s", n, ps.name, typeNames[t], c.errName(st, rv))
							})
						})
					})
				}
			}
			// identifiers that do not exist
			for _, lim := range [][2]int64{{0, 255}, {256, 1<<32 - 1}} {
				id := c.num(lim[0], lim[1], "id")
				st := c.state()
				if lim[0] == 0 {
					st.restrict(id, func(v int64) bool { return propKnown(v) == nil })
				}
				for _, v := range c.goVals(st) {
					c.newPkt(st.clone(), 5, t, func(st *State, p *pkt) {
						c.inv(st, p.msg, "PropertySet", []Val{sv(id), v.v}, func(st *State, rv Val) {
							c.split(st, func(st *State) {
								c.must(st, !c.nilErr(st, rv), "set-acceptance", "setting the undefined property %s is accepted", st.showSym(id))
							})
						})
					})
				}
			}
		})
		// tables
		r.add("PropertyID tables for "+typeNames[t], func(c *Ctx) {
			id := c.num(0, 255, "id")
			pid := &Iface{c.typ("PropertyID"), sv(id)}
			c.inv(c.state(), pid, "IsValidPacketType", []Val{cst(t)}, func(st *State, rv Val) {
				c.split(st, func(st *State) {
					ok := st.must(rv)
					for v := int64(0); v < 256; v++ {
						if st.may(id, v) {
							ps := propKnown(v)
							c.must(st, ok == (ps != nil && ps.types[t]), "table", "IsValidPacketType(%s) of 0x%02X is %v", typeNames[t], v, ok)
						}
					}
				})
			})
			c.inv(c.state(), pid, "IsValid", nil, func(st *State, rv Val) {
				c.split(st, func(st *State) {
					ok := st.must(rv)
					for v := int64(0); v < 256; v++ {
						if st.may(id, v) {
							c.must(st, ok == (propKnown(v) != nil), "table", "IsValid of 0x%02X is %v", v, ok)
						}
					}
				})
			})
			c.inv(c.state(), pid, "DupAllowed", []Val{cst(t)}, func(st *State, rv Val) {
				c.split(st, func(st *State) {
					ok := st.must(rv)
					for v := int64(0); v < 256; v++ {
						if ps := propKnown(v); ps != nil && ps.types[t] && st.may(id, v) {
							c.must(st, ok == ps.rep[t], "table", "DupAllowed(%s) of %s is %v", typeNames[t], ps.name, ok)
						}
					}
				})
			})
		})
	}
	// reading
	type hole struct {
		name    string
		typ     int64
		allowed func(ps *propSpec) bool
		rep     func(ps *propSpec) bool
		around  func(c *Ctx, st *State) (pre, post *Seq, flags int64)
		will    bool
	}
	var holes []hole
	for t := int64(1); t <= 15; t++ {
		t := t
		if t == tPINGREQ || t == tPINGRESP {
			continue
		}
		holes = append(holes, hole{typeNames[t], t, func(ps *propSpec) bool { return carried(ps, t) }, func(ps *propSpec) bool { return ps.rep[t] },
			func(c *Ctx, st *State) (*Seq, *Seq, int64) { return c.around(st, t) }, false})
	}
	holes = append(holes, hole{"will of CONNECT", tCONNECT, func(ps *propSpec) bool { return willProps[ps.id] }, func(ps *propSpec) bool { return ps.id == 0x26 },
		func(c *Ctx, st *State) (*Seq, *Seq, int64) { a, b := withWill(); return a, b, 0 }, true})
	for _, h := range holes {
		h := h
		decode := func(c *Ctx, st *State, props *Seq, k func(st *State, m *Iface, err Val)) {
			c.split(st, func(st *State) {
				pre, post, fl := h.around(c, st)
				body := cat(pre, c.uvSeq(st, props.size()), props, post)
				c.decodeSeq(st, 5, c.packet(st, h.typ, K(fl), body), func(st *State, m *Iface, err Val) {
					if m == nil || !h.will {
						k(st, m, err)
						return
					}
					c.get(st, m, "Will", nil, func(st *State, v Val) {
						w, ok := st.finVal(v).(*Ptr)
						if c.must(st, ok && w.obj != 0, "will", "decoded CONNECT has no will") {
							k(st, &Iface{types_ptr(c, "Publish"), w}, err)
						}
					})
				})
			})
		}
		for i := range propTable {
			ps := &propTable[i]
			r.add(fmt.Sprintf("Decode(v5, %s with %s)", h.name, ps.name), func(c *Ctx) {
				st := c.state()
				v := c.wireProp(st, ps, "")
				q := v.encs[0](st)
				// some properties need a companion
				comp, compFirst := &Seq{}, &Seq{}
				if ps.id == 0x16 && h.allowed(ps) { // authentication data needs a method
					comp = cat(constSeq("\x15"), lpSeq(constSeq("m")))
				}
				for _, alt := range []*Seq{cat(compFirst, q, comp)} {
					decode(c, st.clone(), alt, func(st *State, m *Iface, err Val) {
						if !h.allowed(ps) {
							c.must(st, m == nil, "wire-acceptance", "%s with %s is accepted", h.name, ps.name)
							return
						}
						if !c.must(st, m != nil, "wire-acceptance", "%s with %s is refused: %s", h.name, ps.name, c.errName(st, err)) {
							return
						}
						c.hasValue(st, m, ps, v.val)
					})
				}
				if !h.allowed(ps) {
					return
				}
				// a second occurrence, directly behind and behind another property
				w := c.wireProp(st, ps, "second")
				q2 := w.encs[0](st)
				up := cat(constSeq("\x26"), lpSeq(constSeq("k")), lpSeq(constSeq("v")))
				alts := []*Seq{cat(q, q2, comp), cat(q, q, comp)}
				if ps.id != 0x26 {
					alts = append(alts, cat(q, up, q2, comp))
				}
				for _, alt := range alts {
					decode(c, st.clone(), alt, func(st *State, m *Iface, err Val) {
						if h.rep(ps) {
							c.must(st, m != nil, "wire-repeat", "%s with two of %s is refused: %s", h.name, ps.name, c.errName(st, err))
						} else {
							c.must(st, m == nil, "wire-repeat", "%s with two of %s is accepted", h.name, ps.name)
						}
					})
				}
			})
		}
		r.add(fmt.Sprintf("Decode(v5, %s with a property that is not defined for it)", h.name), func(c *Ctx) {
			for _, lead := range []*Seq{{}, cat(constSeq("\x26"), lpSeq(constSeq("k")), lpSeq(constSeq("v")))} {
				st := c.state()
				id := c.num(0, 255, "id")
				// those of a PUBLISH that are forbidden here have been looked at above
				st.restrict(id, func(v int64) bool {
					ps := propKnown(v)
					return ps == nil || !h.allowed(ps) && !((h.will || h.typ == tPUBLISH) && ps.types[tPUBLISH])
				})
				rest, n := c.blob("value", 0, 1000)
				_ = n
				decode(c, st, cat(lead, byteSeq(sv(id)), rest), func(st *State, m *Iface, err Val) {
					c.must(st, m == nil, "wire-acceptance", "%s with property %s is accepted", h.name, st.showSym(id))
				})
			}
		})
	}
}

func propKnown(id int64) *propSpec {
	for i := range propTable {
		if propTable[i].id == id {
			return &propTable[i]
		}
	}
	return nil
}

// hasValue demands that a packet reports a property with a value.
func (c *Ctx) hasValue(st *State, m *Iface, ps *propSpec, want Val) {
	c.inv(st, m, "PropertyGet", []Val{cst(ps.id)}, func(st *State, r Val) {
		x, ok := st.finVal(r).(*Iface)
		if !ok || x.t == nil || nilPtr(x.v) {
			c.must(st, false, "value", "%s is not reported", ps.name)
			return
		}
		c.propValue(st, x, func(st *State, v Val) {
			t, _ := v.(Tuple)
			if !c.must(st, len(t) == 2, "value", "%s has no value of a known type", ps.name) {
				return
			}
			as, _ := t[0].(*Str).q.constStr()
			kind := map[int]string{kByte: "AsByte", kShort: "AsShort", kInt: "AsInt", kVarInt: "AsInt", kString: "AsString", kPair: "AsStringPair", kBinary: "AsBinary"}[ps.kind]
			c.must(st, as == kind, "value-type", "%s is reported through %s", ps.name, as)
			c.must(st, c.same(st, listed(c, st, t[1]), listed(c, st, want.(*Iface).v)) == 1, "value", "%s is reported as %s instead of %s", ps.name, c.show(st, t[1]), c.show(st, want.(*Iface).v))
		})
	})
}

// listed makes single numbers lists, as AsInts reports them.
func listed(c *Ctx, st *State, v Val) Val {
	switch v := st.finVal(v).(type) {
	case *Num:
		return c.list(st, nil, v)
	}
	return v
}

type goVal struct {
	name  string
	kinds map[int64]bool
	v     Val
}

// goVals are values of many Go types, with the property kinds each fits.
func (c *Ctx) goVals(st *State) (r []goVal) {
	b := types.Typ
	add := func(name string, v Val, kinds ...int64) { r = append(r, goVal{name, set(kinds...), v}) }
	q, _ := c.blob("str", 0, 1<<20)
	bin, _ := c.blob("bin", 0, 1<<20)
	num := func(hi int64) Val { return sv(c.num(0, hi, "num")) }
	pair := func() Val {
		a, _ := c.blob("k", 0, 1<<20)
		b, _ := c.blob("v", 0, 1<<20)
		return &StructV{[]Val{&Str{a}, &Str{b}}}
	}
	add("nil", &Iface{})
	add("bool", &Iface{b[types.Bool], num(1)})
	add("int", &Iface{b[types.Int], num(100)})
	add("int8", &Iface{b[types.Int8], num(100)})
	add("int32", &Iface{b[types.Int32], num(100)})
	add("int64", &Iface{b[types.Int64], num(100)})
	add("uint", &Iface{b[types.Uint], num(100)})
	add("uint64", &Iface{b[types.Uint64], num(100)})
	add("uint8", &Iface{b[types.Uint8], num(255)}, kByte)
	add("uint16", &Iface{b[types.Uint16], num(65535)}, kShort)
	add("uint32", &Iface{b[types.Uint32], num(1<<32 - 1)}, kInt, kVarInt)
	add("QosType", &Iface{c.typ("QosType"), num(2)})
	add("string", &Iface{b[types.String], &Str{q}}, kString)
	add("[]byte", &Iface{types.NewSlice(b[types.Uint8]), c.in.bytesOf(st, bin, "bin")}, kBinary)
	add("StringPair", &Iface{c.typ("StringPair"), pair()}, kPair)
	add("*StringPair", &Iface{types.NewPointer(c.typ("StringPair")), &Ptr{obj: st.alloc(pair(), c.typ("StringPair"), "pair")}})
	sl := func(name string, t types.Type, e []Val, kinds ...int64) {
		add(name, &Iface{types.NewSlice(t), c.list(st, t, e...)}, kinds...)
	}
	sl("[]uint16", b[types.Uint16], []Val{num(65535)})
	sl("[]uint32", b[types.Uint32], []Val{num(1<<32 - 1)}, kVarInt)
	sl("[]uint32 of 0", b[types.Uint32], nil, kVarInt)
	sl("[]string", b[types.String], []Val{&Str{q}})
	sl("[]StringPair", c.typ("StringPair"), []Val{pair(), pair()}, kPair)
	sl("[]StringPair of 0", c.typ("StringPair"), nil, kPair)
	sl("[]int", b[types.Int], []Val{num(100)})
	return
}

func checkC13(r *Report) {
	for _, ver := range versions {
		for _, t := range allTypes(ver) {
			ver, t := ver, t
			var own []*propSpec
			for i := range propTable {
				if propTable[i].types[t] {
					own = append(own, &propTable[i])
				}
			}
			for i := range propTable {
				ps := &propTable[i]
				r.add(fmt.Sprintf("refused settings of %s on %s v%d", ps.name, typeNames[t], ver), func(c *Ctx) {
					c.base(c.state(), ver, t, noPropOpts(t), func(st *State, p *pkt) {
						// what is set before
						before := []*propVal{}
						if ver >= 5 && len(own) > 0 {
							q := own[0]
							if ps.types[t] {
								q = ps
							}
							before = append(before, c.small(st, c.propOf(st, q, 1, "old")))
						}
						c.setProps(st, p.msg, before, func(st *State) {
							ids := []Val{cst(ps.id)}
							if ps == &propTable[0] {
								un := c.num(0, 255, "undefined")
								st.restrict(un, func(v int64) bool { return propKnown(v) == nil })
								ids = append(ids, sv(un), sv(c.num(256, 1<<32-1, "large")))
							}
							for gi, g := range c.goVals(st) {
								if ver < 5 && gi > 0 && !g.kinds[int64(ps.kind)] {
									continue
								}
								for j, id := range ids {
									fits := g.kinds[int64(ps.kind)]
									if j > 0 {
										fits = false
									}
									if ver >= 5 && ps.types[t] && fits {
										continue
									}
									c.refused(st, p.msg, id, g, ps)
								}
							}
						})
					})
				})
			}
		}
	}
	// accepted settings never make encoding panic
	for t := int64(1); t <= 15; t++ {
		t := t
		for i := range propTable {
			ps := &propTable[i]
			if !ps.types[t] {
				continue
			}
			r.add(fmt.Sprintf("Encode of %s v5 with any accepted %s", typeNames[t], ps.name), func(c *Ctx) {
				c.base(c.state(), 5, t, noPropOpts(t), func(st *State, p *pkt) {
					for _, g := range c.goVals(st) {
						if !g.kinds[int64(ps.kind)] {
							continue
						}
						c.inv(st.clone(), p.msg, "PropertySet", []Val{cst(ps.id), g.v}, func(st *State, rv Val) {
							c.cells++
							c.size(st, p.msg, func(st *State, n, err Val) {})
							c.encode(st, p.msg, S(c.in.symKey("anybuf", "buffer", 0, 1<<42)), "buffer", func(st *State, e encRes) { c.obl++ })
						})
					}
				})
			})
		}
	}
}

// noPropOpts builds small packets: the fields do not matter here.
func noPropOpts(t int64) opts {
	o := baseOpts(t)
	return o
}

// refused sets a property that must be refused and compares everything before and after.
func (c *Ctx) refused(st *State, m *Iface, id Val, g goVal, ps *propSpec) {
	c.observe(st.clone(), m, func(st *State, o0 []obsVal) {
		c.size(st, m, func(st *State, n0, e0 Val) {
			c.inv(st, m, "PropertySet", []Val{id, g.v}, func(st *State, rv Val) {
				c.split(st, func(st *State) {
					c.cells++
					if !c.must(st, !c.nilErr(st, rv), "refused", "setting property %s to a %s is accepted", c.show(st, id), g.name) {
						return
					}
					c.observe(st, m, func(st *State, o1 []obsVal) {
						d := c.sameObs(st, o0, o1, nil)
						c.must(st, d == "", "unchanged", "refused setting of property %s to a %s changes %s", c.show(st, id), g.name, d)
						c.size(st, m, func(st *State, n1, e1 Val) {
							c.must(st, st.eqNum(n0, n1) == 1, "unchanged", "refused setting of property %s to a %s changes the size from %s to %s", c.show(st, id), g.name, c.show(st, n0), c.show(st, n1))
						})
					})
				})
			})
		})
	})
}

// ---- C11 ----------------------------------------------------------------------------------------

// op is one step of a sequence: set a value of one property, or discard all.
type op struct {
	spec *propSpec // nil: discard
	n    int
}

func checkC11(r *Report) {
	var ss []scen
	for t := int64(1); t <= 15; t++ {
		t := t
		var own []*propSpec
		for i := range propTable {
			if ps := &propTable[i]; ps.types[t] && ps.id != 0x18 {
				own = append(own, ps)
			}
		}
		for i, a := range own {
			b := own[(i+1)%len(own)]
			seqs := [][]op{
				{{a, 1}, {a, 1}},
				{{a, 1}, {nil, 0}},
				{{a, 1}, {nil, 0}, {a, 1}},
				{{a, 1}, {a, 1}, {a, 1}},
				{{nil, 0}, {a, 1}},
			}
			if a != b {
				seqs = append(seqs, []op{{a, 1}, {b, 1}, {a, 1}}, []op{{a, 1}, {b, 1}, {nil, 0}}, []op{{a, 1}, {b, 1}, {nil, 0}, {b, 1}}, []op{{a, 1}, {b, 1}, {b, 1}, {a, 1}})
			}
			if a.rep[t] {
				seqs = append(seqs, []op{{a, 2}, {a, 1}}, []op{{a, 1}, {a, 2}}, []op{{a, 2}, {a, 3}}, []op{{a, 3}, {a, 2}}, []op{{a, 2}, {nil, 0}}, []op{{a, 2}, {nil, 0}, {a, 2}})
			}
			for _, q := range seqs {
				q := q
				o := baseOpts(t)
				o.seq = func(c *Ctx, st *State, m *Iface, k func(st *State, final []*propVal)) { c.ops(st, m, q, 0, nil, k) }
				ss = append(ss, scen{name: typeNames[t] + " v5: " + opsName(q), ver: 5, typ: t, o: o})
			}
		}
	}
	runScens(r, ss, func(c *Ctx, st *State, p *pkt) {
		c.current(st, p.msg, p.props, func(st *State) {
			c.encoded(st, p, func(st *State, n *Aff, e encRes) {
				if !c.must(st, e.ok, "encodes", "Encode fails: %s", c.errName(st, e.err)) {
					return
				}
				m := st.norm(st.affOf(e.n))
				c.must(st, st.decideAff('=', m.minus(n)) == 1, "size", "Size is %s, %s bytes are encoded", n, m)
				ws := c.wires(st, p)
				exp := ""
				if len(ws) > 0 {
					exp = ws[0].String()
				}
				c.must(st, c.matchPkt(st, st.sub(e.now, K(0), m), p), "bytes", "Encode emits %s, expected %s", e.now, exp)
			})
		})
	})
	// a decoded packet
	for t := int64(1); t <= 15; t++ {
		t := t
		if t == tPINGREQ || t == tPINGRESP {
			continue
		}
		for i := range propTable {
			a := &propTable[i]
			if !carried(a, t) {
				continue
			}
			for _, how := range []string{"replaced", "discarded", "discarded and set", "added to"} {
				how := how
				r.add(fmt.Sprintf("decoded %s v5 with %s, %s", typeNames[t], a.name, how), func(c *Ctx) {
					st := c.state()
					up := propByID(0x26)
					old := c.wireProp(st, a, "old")
					comp := []*propVal{}
					if a.id == 0x16 {
						comp = append(comp, c.wireProp(st, propByID(0x15), "m"))
					}
					neu := c.wireProp(st, a, "new")
					c.split(st, func(st *State) {
						pre, post, fl := c.around(st, t)
						blk := c.blocks(st, append([]*propVal{old}, comp...))[0]
						c.decodeSeq(st, 5, c.packet(st, t, K(fl), cat(pre, blk, post)), func(st *State, m *Iface, err Val) {
							if m == nil {
								return // C12
							}
							fin := func(st *State, ps []*propVal) {
								c.current(st, m, ps, func(st *State) {
									p := &pkt{ver: 5, typ: t, msg: m, flags: K(fl), props: ps, alts: [][]part{{{q: pre}, {block: true, props: ps}, {q: post}}}}
									if len(ps) == 0 {
										switch t { // codes and properties may be left out
										case tPUBACK, tPUBREC, tPUBREL, tPUBCOMP:
											p.alts = append(p.alts, seqs(st.sub(pre, K(0), K(2))), seqs(pre))
										case tDISCONNECT, tAUTH:
											p.alts = append(p.alts, nil, seqs(pre))
										}
									}
									c.encoded(st, p, func(st *State, n *Aff, e encRes) {
										if !c.must(st, e.ok, "encodes", "Encode fails: %s", c.errName(st, e.err)) {
											return
										}
										l := st.norm(st.affOf(e.n))
										c.must(st, st.decideAff('=', l.minus(n)) == 1, "size", "Size is %s, %s bytes are encoded", n, l)
										c.must(st, c.matchPkt(st, st.sub(e.now, K(0), l), p), "bytes", "Encode emits %s", e.now)
									})
								})
							}
							switch how {
							case "replaced":
								c.setProps(st, m, []*propVal{neu}, func(st *State) { fin(st, append([]*propVal{neu}, comp...)) })
							case "discarded":
								c.inv(st, m, "PropertiesDiscard", nil, func(st *State, _ Val) { fin(st, nil) })
							case "discarded and set":
								c.inv(st, m, "PropertiesDiscard", nil, func(st *State, _ Val) {
									c.setProps(st, m, append([]*propVal{neu}, comp...), func(st *State) { fin(st, append([]*propVal{neu}, comp...)) })
								})
							case "added to":
								if a == up {
									return
								}
								u := c.small(st, c.propOf(st, up, 1, "u"))
								c.setProps(st, m, []*propVal{u}, func(st *State) { fin(st, append([]*propVal{old, u}, comp...)) })
							}
						})
					})
				})
			}
		}
	}
}

func opsName(q []op) string {
	s := ""
	for i, o := range q {
		if i > 0 {
			s += ", "
		}
		switch {
		case o.spec == nil:
			s += "discard"
		case o.n == 1:
			s += "set " + o.spec.name
		default:
			s += fmt.Sprintf("set %d of %s", o.n, o.spec.name)
		}
	}
	return s
}

// ops performs a sequence and keeps the model: the properties set now.
func (c *Ctx) ops(st *State, m *Iface, q []op, i int, cur []*propVal, k func(st *State, final []*propVal)) {
	if i == len(q) {
		k(st, cur)
		return
	}
	o := q[i]
	if o.spec == nil {
		c.inv(st, m, "PropertiesDiscard", nil, func(st *State, _ Val) { c.ops(st, m, q, i+1, nil, k) })
		return
	}
	v := c.propOf(st, o.spec, o.n, fmt.Sprintf("s%d.", i))
	if o.spec.kind == kVarInt {
		// widths of variable byte integers multiply the cases: two of them are enough
		if l, ok := v.val.(*Iface).v.(*Num); ok {
			st.setRange(l.e.single(), 100, 200)
		} else {
			c.small(st, v)
		}
	}
	for _, l := range v.lps {
		st.assumeAff('g', K(65535).minus(l))
		if o.n > 1 {
			st.setRange(l.single(), 4, 4)
		} else if len(q) > 2 {
			st.setRange(l.single(), 0, 100)
		}
	}
	var next []*propVal
	for _, x := range cur {
		if x.spec != o.spec {
			next = append(next, x)
		}
	}
	next = append(next, v)
	c.setProps(st, m, []*propVal{v}, func(st *State) { c.ops(st, m, q, i+1, next, k) })
}

// current demands that the accessors and the iteration report exactly the given properties.
func (c *Ctx) current(st *State, m *Iface, ps []*propVal, k func(st *State)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(propTable) {
			c.forEachProp(st, m, func(st *State, ids []Val, vals []Val) {
				if !c.must(st, len(ids) == len(ps), "iteration", "PropertyForEach visits %d properties, %d are set", len(ids), len(ps)) {
					return
				}
				for _, p := range ps {
					n := 0
					for _, id := range ids {
						if st.eqNum(id, cst(p.spec.id)) == 1 {
							n++
						}
					}
					c.must(st, n == 1, "iteration", "PropertyForEach visits %s %d times", p.spec.name, n)
				}
				k(st)
			})
			return
		}
		ps1 := &propTable[i]
		want := hasProp(ps, ps1.id)
		c.inv(st, m, "PropertyGet", []Val{cst(ps1.id)}, func(st *State, r Val) {
			x, ok := st.finVal(r).(*Iface)
			has := ok && x.t != nil && !nilPtr(x.v)
			if !c.must(st, has == (want != nil), "current", "%s is reported set: %v, expected %v", ps1.name, has, want != nil) {
				return
			}
			if want != nil {
				c.hasValue(st.clone(), m, ps1, want.val)
			}
			rec(st, i+1)
		})
	}
	rec(st, 0)
}

// forEachProp collects what PropertyForEach visits.
func (c *Ctx) forEachProp(st *State, m *Iface, k func(st *State, ids, vals []Val)) {
	box := st.alloc(&ArrV{}, nil, "properties")
	name := "callback:properties"
	c.in.override[name] = func(in *Interp, st *State, args []Val, site ssa.Instruction) []Outcome {
		a := st.get(box).(*ArrV)
		st.set(box, &ArrV{append(a.e[:len(a.e):len(a.e)], args[len(args)-2], args[len(args)-1])})
		return one(st, Tuple{})
	}
	c.inv(st, m, "PropertyForEach", []Val{&Func{ext: name}}, func(st *State, r Val) {
		e := st.get(box).(*ArrV).e
		var ids, vals []Val
		for i := 0; i+1 < len(e); i += 2 {
			ids, vals = append(ids, e[i]), append(vals, e[i+1])
		}
		k(st, ids, vals)
	})
}
