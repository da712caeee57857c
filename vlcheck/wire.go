package main

import (
	"fmt"
	"strings"
)

// Packets that were received: well-formed byte strings of unknown content, decoded. They reach states
// no setter produces (empty user names, codes and options no setter accepts, short forms).

// rcv describes a received packet.
type rcv struct {
	ver, typ int64
	wire     *Seq
	m        *Iface
	heavy    bool // too large for comparisons of all accessors
}

// received adds a scenario for every family of received packets.
func received(r *Report, f func(c *Ctx, st *State, w *rcv)) {
	take := func(c *Ctx, st *State, ver, typ int64, flags *Aff, body *Seq) {
		c.split(st, func(st *State) {
			q := c.packet(st, typ, flags, body)
			c.decodeSeq(st, ver, q, func(st *State, m *Iface, err Val) {
				if m != nil {
					f(c, st, &rcv{ver: ver, typ: typ, wire: q, m: m})
				}
			})
		})
	}
	// every form of the packets the setters build
	for _, s := range append(plainScens(), propScens()...) {
		s := s
		if s.o.via != 0 {
			continue
		}
		r.add("received "+s.name, func(c *Ctx) {
			c.useUv()
			c.base(c.state(), s.ver, s.typ, s.o, func(st *State, p *pkt) {
				if p.mustFail != "" {
					return
				}
				c.split(st, func(st *State) {
					if !c.encodable(st, p) {
						return
					}
					for _, b := range c.bodies(st, p) {
						take(c, st.clone(), s.ver, s.typ, p.flags, b)
					}
				})
			})
		})
	}
	for _, ver := range versions {
		ver := ver
		none := &Seq{}
		if ver >= 5 {
			none = constSeq("\x00")
		}
		for combo := 0; combo < 8; combo++ {
			will, user, pass := combo&1 != 0, combo&2 != 0, combo&4 != 0
			r.add(fmt.Sprintf("received %s CONNECT, will %v, user name %v, password %v", vname(ver), will, user, pass), func(c *Ctx) {
				st := c.state()
				w := c.newConn(st, ver, will, user, pass)
				take(c, st, ver, tCONNECT, K(0), w.body(st))
			})
		}
		for qos := int64(0); qos < 3; qos++ {
			for _, alias := range []bool{false, true} {
				qos, alias := qos, alias
				if alias && ver < 5 {
					continue
				}
				r.add(fmt.Sprintf("received %s PUBLISH QoS %d, alias %v", vname(ver), qos, alias), func(c *Ctx) {
					st := c.state()
					flags := c.num(0, 15, "flags")
					st.restrict(flags, func(v int64) bool { return v>>1&3 == qos })
					topic, _ := c.blob("topic", 0, 65535)
					pay, _ := c.blob("payload", 0, 1<<20)
					body := lpSeq(topic)
					if qos > 0 {
						body = cat(body, seqNum(sv(c.num(0, 65535, "id")), 2))
					}
					if alias {
						body = cat(body, constSeq("\x03\x23"), seqNum(sv(c.num(0, 65535, "alias")), 2))
					} else {
						body = cat(body, none)
					}
					take(c, st, ver, tPUBLISH, S(flags), cat(body, pay))
				})
			}
		}
		for _, typ := range []int64{tSUBSCRIBE, tUNSUBSCRIBE} {
			for n := 1; n <= 3; n++ {
				typ, n := typ, n
				r.add(fmt.Sprintf("received %s %s of %d topics", vname(ver), typeNames[typ], n), func(c *Ctx) {
					st := c.state()
					body := cat(seqNum(sv(c.num(0, 65535, "id")), 2), none)
					for i := 0; i < n; i++ {
						t := constSeq([]string{"", "a/+/é", "$SYS/#"}[i])
						if i == 0 {
							t, _ = c.blob("topic", 0, 65535)
						}
						body = cat(body, lpSeq(t))
						if typ == tSUBSCRIBE {
							body = cat(body, byteSeq(sv(c.num(0, 255, fmt.Sprintf("options%d", i)))))
						}
					}
					take(c, st, ver, typ, K(2), body)
				})
			}
		}
		// codes
		for _, typ := range allTypes(ver) {
			typ := typ
			fl := K(defaultFlags[typ])
			if !hasCodes(ver, typ) {
				switch typ {
				case tPUBACK, tPUBREC, tPUBREL, tPUBCOMP, tUNSUBACK:
					r.add(fmt.Sprintf("received %s %s with any identifier", vname(ver), typeNames[typ]), func(c *Ctx) {
						st := c.state()
						take(c, st, ver, typ, fl, seqNum(sv(c.num(0, 65535, "id")), 2))
					})
				case tDISCONNECT, tPINGREQ, tPINGRESP:
					r.add(fmt.Sprintf("received %s %s", vname(ver), typeNames[typ]), func(c *Ctx) {
						st := c.state()
						take(c, st, ver, typ, fl, &Seq{})
					})
				}
				continue
			}
			r.add(fmt.Sprintf("received %s %s with any code", vname(ver), typeNames[typ]), func(c *Ctx) {
				st := c.state()
				code := byteSeq(sv(c.num(0, 255, "code")))
				id := seqNum(sv(c.num(0, 65535, "id")), 2)
				switch typ {
				case tCONNACK:
					take(c, st, ver, typ, fl, cat(byteSeq(sv(c.num(0, 255, "flags"))), code, none))
				case tPUBACK, tPUBREC, tPUBREL, tPUBCOMP:
					for _, b := range []*Seq{id, cat(id, code), cat(id, code, none)} {
						take(c, st.clone(), ver, typ, fl, b)
					}
				case tDISCONNECT, tAUTH:
					for _, b := range []*Seq{{}, code, cat(code, none)} {
						take(c, st.clone(), ver, typ, fl, b)
					}
				default:
					more := byteSeq(sv(c.num(0, 255, "code2")))
					for _, b := range []*Seq{cat(id, none), cat(id, none, code), cat(id, none, code, more)} {
						take(c, st.clone(), ver, typ, fl, b)
					}
				}
			})
		}
	}
}

// sized calls Size of a received packet and encodes it into a buffer of that size.
func (c *Ctx) sized(st *State, w *rcv, k func(st *State, n *Aff, e encRes)) {
	c.size(st, w.m, func(st *State, nv, err Val) {
		c.split(st, func(st *State) {
			if !c.must(st, c.nilErr(st, err), "received-size", "Size fails for the received %s: %s", w.wire, c.errName(st, err)) {
				return
			}
			n := st.norm(st.affOf(nv))
			c.encode(st, w.m, n, "dirty buffer", func(st *State, e encRes) { k(st, n, e) })
		})
	})
}

// passedOn encodes a received packet and decodes the bytes again.
func (c *Ctx) passedOn(st *State, w *rcv) {
	c.observe(st, w.m, func(st *State, o0 []obsVal) {
		c.sized(st, w, func(st *State, n *Aff, e encRes) {
			if !c.must(st, e.ok, "pass-on", "the received %s cannot be encoded: %s", w.wire, c.errName(st, e.err)) {
				return
			}
			m := st.norm(st.affOf(e.n))
			c.fn(st, "Decode", []Val{cst(w.ver), &Slice{e.buf.obj, e.buf.off, m, m}}, func(st *State, r Val) {
				c.split(st, func(st *State) {
					if !c.must(st, c.nilErr(st, tup(r, 2)), "pass-on", "the received %s is encoded as %s, which is refused with %s", w.wire, st.sub(e.now, K(0), m), c.errName(st, tup(r, 2))) {
						return
					}
					q, ok := st.finVal(tup(r, 0)).(*Iface)
					if !c.must(st, ok && q.t != nil && typeName(q.t) == typeName(w.m.t), "pass-on", "decoding again gives %s", c.show(st, tup(r, 0))) {
						return
					}
					c.observe(st, q, func(st *State, o1 []obsVal) {
						d := c.sameObs(st, o0, o1, nil)
						c.must(st, d == "", "pass-on", "the received %s, encoded and decoded again, differs in %s", w.wire, d)
					})
				})
			})
		})
	})
}

func checkC37(r *Report) { received(r, func(c *Ctx, st *State, w *rcv) { c.passedOn(st, w) }) }

var _ = strings.Join
