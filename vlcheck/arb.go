package main

import (
	"fmt"
	"strings"
)

// arbitrary buffers: Decode(version, buf) for every buffer whose first byte has a given type
// nibble, with loops widened to fixpoints; and the empty buffer.

func (c *Ctx) arbMode() {
	c.in.widen = true
	c.useUv()
}

type arbIn struct {
	ver, typ int64
	hdr      *Sym
	buf      *Slice
	q        *Seq // whole content
	body     *Seq // content after the first byte
	n        *Sym // its length
	cnt      *Aff // size of the remaining length field (<= 0: not well-formed)
	val      *Aff // its value
}

// remLen names the remaining length field of the content.
func (a *arbIn) remLen(in *Interp, st *State) {
	key := "uv|" + st.seqKey(a.body)
	a.cnt = S(in.symKey(key+"|n", "uvlen", -inf, 4))
	a.val = S(in.symKey(key+"|v", "uvval", 0, 1<<28-1))
}

// arb decodes an arbitrary buffer of a packet type.
func (c *Ctx) arb(ver int64, typ int64, k func(st *State, a *arbIn, o Outcome)) {
	in := c.in
	c.arbMode()
	st := c.state()
	a := &arbIn{ver: ver, typ: typ, hdr: in.sym("first", typ<<4, typ<<4+15)}
	a.body, a.n = c.blob("buf", 0, 1<<31)
	a.q = cat(&Seq{[]Piece{{k: pNum, v: sv(a.hdr), w: 1}}}, a.body)
	a.buf = in.roomy(st, a.q, "input buffer")
	a.remLen(in, st)
	c.arbRun(st, a, k)
}
func (c *Ctx) arbRun(st *State, a *arbIn, k func(st *State, a *arbIn, o Outcome)) {
	f := c.in.fn(c.p, "Decode")
	outs := c.in.call(st, &Func{fn: f}, []Val{cst(a.ver), a.buf}, nil)
	for _, o := range outs {
		if !o.st.dead {
			c.cells++
			k(o.st, a, o)
		}
	}
}

// arbEmpty decodes the empty buffer and a nil buffer.
func (c *Ctx) arbEmpty(k func(st *State, a *arbIn, o Outcome)) {
	c.arbMode()
	for _, v := range versions {
		st := c.state()
		c.arbRun(st, &arbIn{ver: v, q: &Seq{}, body: &Seq{}, buf: c.in.bytesOf(st, &Seq{}, "empty buffer")}, k)
		st = c.state()
		c.arbRun(st, &arbIn{ver: v, q: &Seq{}, body: &Seq{}, buf: &Slice{0, K(0), K(0), K(0)}}, k)
	}
}

func arbEach(r *Report, types []int64, f func(c *Ctx, ver, typ int64)) {
	// heavy types first
	order := []int64{tCONNECT, tSUBSCRIBE, tPUBLISH}
	for t := int64(0); t < 16; t++ {
		if t != tCONNECT && t != tSUBSCRIBE && t != tPUBLISH {
			order = append(order, t)
		}
	}
	for _, t := range order {
		if types != nil {
			ok := false
			for _, x := range types {
				ok = ok || x == t
			}
			if !ok {
				continue
			}
		}
		for _, v := range versions {
			v, t := v, t
			r.add(fmt.Sprintf("Decode(v%d, any %s packet)", v, typeNames[t]), func(c *Ctx) { f(c, v, t) })
		}
	}
}

// outcome of a decode: success / error; undecided error values are reported.
func (c *Ctx) decoded(st *State, o Outcome, ok func(st *State, msg Val, total Val), bad func(st *State, err Val)) {
	if o.panicked {
		return // reported by C01
	}
	c.split(st, func(st *State) {
		if c.nilErr(st, tup(o.ret, 2)) {
			if ok != nil {
				ok(st, tup(o.ret, 0), tup(o.ret, 1))
			}
		} else if bad != nil {
			bad(st, tup(o.ret, 2))
		}
	})
}

func nilPtr(v Val) bool {
	p, ok := v.(*Ptr)
	return ok && p.obj == 0
}

func checkC01(r *Report) {
	obl := func(c *Ctx) func(st *State, a *arbIn, o Outcome) {
		return func(st *State, a *arbIn, o Outcome) {
			if !c.must(st, !o.panicked, "no-panic", "a panic escapes Decode: %s", o.where) {
				return
			}
			msg, err := st.finVal(tup(o.ret, 0)), tup(o.ret, 2)
			m, isI := msg.(*Iface)
			if !isI {
				undecided("packet result %s at %s", valStr(msg), o.where)
			}
			c.split(st, func(st *State) {
				e := c.nilErr(st, err)
				has := m.t != nil && !nilPtr(m.v)
				if e {
					c.must(st, has, "packet-or-error", "Decode returns neither a packet nor an error (%s)", o.where)
				} else {
					c.must(st, m.t == nil, "packet-or-error", "Decode returns a packet together with error %s (%s)", c.errName(st, err), o.where)
				}
			})
		}
	}
	arbEach(r, nil, func(c *Ctx, ver, typ int64) { c.arb(ver, typ, obl(c)) })
	r.add("Decode(empty buffer)", func(c *Ctx) { c.arbEmpty(obl(c)) })
}

func checkC02(r *Report) {
	arbEach(r, nil, func(c *Ctx, ver, typ int64) {
		c.arb(ver, typ, func(st *State, a *arbIn, o Outcome) {})
		for _, l := range c.in.loopRep {
			c.must(nil, l.ok, "ranking", "loop at %s: %s", l.where, l.how)
		}
	})
}

func checkC03(r *Report) {
	arbEach(r, nil, func(c *Ctx, ver, typ int64) {
		c.arb(ver, typ, func(st *State, a *arbIn, o Outcome) {
			c.decoded(st, o, func(st *State, msg, total Val) {
				t := st.affOf(total)
				c.must(st, st.decideAff('=', t.minus(a.q.size())) == 1, "exact-count", "Decode succeeds reporting %s bytes for a buffer of %s", st.norm(t), st.norm(a.q.size()))
				// declared remaining length
				ok := st.decideAff('g', a.cnt.addc(-1)) == 1 && st.decideAff('=', a.body.size().minus(a.cnt).minus(a.val)) == 1
				c.must(st, ok, "declared-length", "Decode accepts a packet whose declared remaining length %s differs from the %s bytes present", st.norm(a.val), st.norm(a.body.size().minus(a.cnt)))
			}, nil)
		})
	})
}

func checkC04(r *Report) {
	arbEach(r, nil, func(c *Ctx, ver, typ int64) {
		id := 0
		c.in.onWrite = func(st *State, o int) {
			if id != 0 && o == id {
				c.fail(st, "no-write", "the input buffer is written at %s", c.in.ipos(c.in.curSite))
			}
		}
		c.in.onMapSet = func(st *State, m int, k, v Val) {
			c.obl++
			if id != 0 && aliases(st, v, id, 0) {
				c.fail(st, "copied", "a value that aliases the input buffer is stored in a map at %s", c.in.ipos(c.in.curSite))
			}
		}
		in := c.in
		c.arbMode()
		st := c.state()
		a := &arbIn{ver: ver, typ: typ, hdr: in.sym("first", typ<<4, typ<<4+15)}
		a.body, a.n = c.blob("buf", 0, 1<<31)
		a.q = cat(&Seq{[]Piece{{k: pNum, v: sv(a.hdr), w: 1}}}, a.body)
		a.buf = in.roomy(st, a.q, "input buffer")
		a.remLen(in, st)
		id = a.buf.obj
		c.arbRun(st, a, func(st *State, a *arbIn, o Outcome) {
			c.obl++
			c.decoded(st, o, func(st *State, msg, total Val) {
				c.appData(st, msg, func(st *State, what string, v Val) {
					c.must(st, !aliases(st, v, a.buf.obj, 0), "copied", "%s of the decoded packet aliases the input buffer", what)
				})
			}, nil)
		})
	})
}

// appData visits payload, topic and property values of a decoded PUBLISH or Will.
func (c *Ctx) appData(st *State, msg Val, f func(st *State, what string, v Val)) {
	i, ok := msg.(*Iface)
	if !ok || i.t == nil {
		return
	}
	switch typeName(i.t) {
	case "Publish":
		c.inv(st, i, "Payload", nil, func(st *State, v Val) { f(st, "Payload()", v) })
		c.inv(st, i, "Topic", nil, func(st *State, v Val) { f(st, "Topic()", v) })
	case "Connect":
		c.inv(st, i, "Will", nil, func(st *State, v Val) {
			if p, ok := v.(*Ptr); ok && p.obj != 0 {
				w := &Iface{types_ptr(c, "Publish"), p}
				c.inv(st, w, "Payload", nil, func(st *State, v Val) { f(st, "Will().Payload()", v) })
				c.inv(st, w, "Topic", nil, func(st *State, v Val) { f(st, "Will().Topic()", v) })
			}
		})
	}
}

// aliases tells whether a value reaches memory of the object.
func aliases(st *State, v Val, id, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *Slice:
		if x.obj == id {
			return true
		}
		if x.obj != 0 {
			return aliases(st, st.get(x.obj), id, depth+1)
		}
	case *Ptr:
		if x.obj == id {
			return true
		}
		if x.obj != 0 {
			return aliases(st, st.get(x.obj), id, depth+1)
		}
	case *StructV:
		for _, e := range x.f {
			if aliases(st, e, id, depth+1) {
				return true
			}
		}
	case *ArrV:
		for _, e := range x.e {
			if aliases(st, e, id, depth+1) {
				return true
			}
		}
	case *Iface:
		return aliases(st, x.v, id, depth+1)
	case *MapRef:
		if x.obj != 0 {
			return aliases(st, st.get(x.obj), id, depth+1)
		}
	case *MapV:
		for _, e := range x.ents {
			if aliases(st, e.v, id, depth+1) {
				return true
			}
		}
	case *Fin:
		for _, e := range x.tab {
			if e != nil && aliases(st, e, id, depth+1) {
				return true
			}
		}
	}
	return false
}

func checkC25(r *Report) {
	arbEach(r, nil, func(c *Ctx, ver, typ int64) {
		c.arb(ver, typ, func(st *State, a *arbIn, o Outcome) {
			c.decoded(st, o, func(st *State, msg, total Val) {
				c.must(st, len(st.failed) == 0, "no-swallowed-failure", "Decode succeeds although a part failed: %s", strings.Join(st.failed, ", "))
			}, nil)
		})
	})
	// encoding: what cannot be written in full is refused
	runScens(r, append(plainScens(), propScens()...), func(c *Ctx, st *State, p *pkt) {
		d := c.in.symKey("anybuf", "buffer", 0, 1<<42)
		c.encode(st, p.msg, S(d), "buffer", func(st *State, e encRes) {
			if !e.ok {
				return
			}
			if p.mustFail != "" {
				return // C19, C20, C21
			}
			if !c.must(st, c.encodable(st, p), "encode-fails", "Encode succeeds with %s bytes although a part of the packet does not fit its length field", st.norm(st.affOf(e.n))) {
				return
			}
			c.must(st, c.complete(st, p, e.n), "encode-complete", "Encode succeeds with %s bytes, which is not all of the packet", st.norm(st.affOf(e.n)))
		})
		c.fn(st, "Encode", []Val{p.msg}, func(st *State, r Val) {
			c.split(st, func(st *State) {
				if !c.nilErr(st, tup(r, 1)) || p.mustFail != "" {
					return
				}
				if !c.must(st, c.encodable(st, p), "encode-fails", "Encode succeeds although a part of the packet does not fit its length field") {
					return
				}
				b, ok := st.finVal(tup(r, 0)).(*Slice)
				if !ok {
					undecided("encoded %s", valStr(tup(r, 0)))
				}
				got := st.content(b)
				c.must(st, c.matchPkt(st, got, p), "encode-complete", "Encode succeeds and gives %s, which is not the packet", got)
			})
		})
	})
}

// complete tells whether n is the size of the packet.
func (c *Ctx) complete(st *State, p *pkt, n Val) bool {
	for _, b := range c.minBodies(st, p) {
		total := K(1).plus(c.uvSeq(st, b).size()).plus(b)
		if st.decideAff('=', st.norm(total.minus(st.affOf(n)))) == 1 {
			return true
		}
	}
	return false
}

func checkC26(r *Report) {
	v5 := func(v int64) bool { return v5ErrorCodes[v] }
	anyErr := func(v int64) bool { return v != 0 }
	reportIn := func(c *Ctx, st *State, err Val, tag, text string, allowed func(v int64) bool) {
		i, ok := st.finVal(err).(*Iface)
		if !ok {
			undecided("error value %s", valStr(err))
		}
		if typeName(i.t) != "ReasonCode" {
			c.obl++
			return
		}
		bad := ""
		e := st.finVal(i.v)
		switch x := e.(type) {
		case *Num:
			s := st.norm(x.e)
			if s.isConst() {
				if !allowed(s.c) {
					bad = fmt.Sprintf("0x%02X", s.c)
				}
			} else {
				bad = s.String()
			}
		case *Fin:
			st.mkDom(x.s).each(func(v int64) {
				if j := v - x.base; j >= 0 && j < int64(len(x.tab)) && x.tab[j] != nil {
					if n, ok := isConstNum(x.tab[j]); !ok || !allowed(n) {
						bad = valStr(x.tab[j])
					}
				}
			})
		}
		c.must(st, bad == "", tag, text, bad)
	}
	report := func(c *Ctx, st *State, err Val) {
		reportIn(c, st, err, "v5-code", "decoding under protocol 5.0 is refused with reason code %s, which MQTT 5.0 does not define for a refusal", v5)
	}
	// under any other version: not the code of success
	for _, v := range versions {
		for t := int64(0); t < 16; t++ {
			v, t := v, t
			if v == 5 && t != tCONNECT {
				continue
			}
			r.add(fmt.Sprintf("Decode(v%d, any %s packet): no success code", v, typeNames[t]), func(c *Ctx) {
				c.arb(v, t, func(st *State, a *arbIn, o Outcome) {
					c.decoded(st, o, nil, func(st *State, err Val) {
						reportIn(c, st, err, "success-code", "a packet is refused with reason code %s, the code of success", anyErr)
					})
				})
			})
		}
	}
	for t := int64(0); t < 16; t++ {
		t := t
		if t == tCONNECT {
			continue
		}
		r.add(fmt.Sprintf("Decode(v5, any %s packet)", typeNames[t]), func(c *Ctx) {
			c.arb(5, t, func(st *State, a *arbIn, o Outcome) {
				c.decoded(st, o, nil, func(st *State, err Val) { report(c, st, err) })
			})
		})
	}
	// CONNECT: the version is the one in the packet
	for _, v := range versions {
		v := v
		r.add(fmt.Sprintf("Decode(v%d, any CONNECT packet of level 5)", v), func(c *Ctx) {
			c.arb(v, tCONNECT, func(st *State, a *arbIn, o Outcome) {
				c.decoded(st, o, nil, func(st *State, err Val) {
					if v != 5 && st.decideAff('=', S(a.hdr).addc(-0x10)) != 1 {
						return // refused for its fixed header, before a level is known
					}
					is5, known := c.connectLevel5(st, a)
					if !known && v != 5 {
						return
					}
					if known && !is5 {
						return
					}
					report(c, st, err)
				})
			})
		})
	}
}

// connectLevel5: whether the packet's protocol level can be 5, which is assumed then; known is false when the packet ends
// before it.
func (c *Ctx) connectLevel5(st *State, a *arbIn) (is5, known bool) {
	n := st.norm(a.cnt)
	if !st.mustGE(n, K(1)) || !st.mustGE(a.body.size(), n.addc(2)) {
		return
	}
	l := st.affOf(st.beNum(a.body, n, 2))
	at := n.plus(l).addc(2)
	if !st.mustGE(a.body.size(), at.addc(1)) {
		return
	}
	for _, b := range st.aliasBytes(a.body, at) {
		if st.decideAff('=', S(b).addc(-5)) == 0 {
			return false, true
		}
	}
	for _, b := range st.aliasBytes(a.body, at) {
		if st.assumeAff('=', S(b).addc(-5)); st.dead {
			return false, true
		}
	}
	return true, true
}
