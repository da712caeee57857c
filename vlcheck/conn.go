package main

import (
	"fmt"
)

// Checks of CONNECT: what is accepted, what is delivered, and what its setters keep.

var protoNames = map[int64]string{3: "MQIsdp", 4: "MQTT", 5: "MQTT"}

var (
	gClientID = grammar{"client identifier",
		[][]lang{{{pat: `[0-9a-zA-Z \-_,.|/]*`}}},
		[][]lang{{{pat: `[0-9a-zA-Z \-_,.|/]*`, neg: true}}}}
	gText = grammar{"text without control characters",
		[][]lang{{langUTF8, {pat: patControl, neg: true}}},
		[][]lang{{not(langUTF8)}, {{pat: patControl}}}}
)

// connIn is a CONNECT of unknown fields on the wire.
type connIn struct {
	ver                     int64
	name                    *Seq
	level, flags, ka        *Sym
	cid, wt, wp, user, pass *Seq
	will, hasUser, hasPass  bool
	cidLen, wtLen           *Sym
	props, willProps        *Seq
	badProps                bool // the will carries a property wills may not have
}

func (w *connIn) body(st *State) *Seq {
	q := cat(lpSeq(w.name), byteSeq(sv(w.level)), byteSeq(sv(w.flags)), seqNum(sv(w.ka), 2))
	if w.ver >= 5 {
		q = cat(q, w.props)
	}
	q = cat(q, lpSeq(w.cid))
	if w.will {
		if w.ver >= 5 {
			q = cat(q, w.willProps)
		}
		q = cat(q, lpSeq(w.wt), lpSeq(w.wp))
	}
	if w.hasUser {
		q = cat(q, lpSeq(w.user))
	}
	if w.hasPass {
		q = cat(q, lpSeq(w.pass))
	}
	return q
}

// flagsOK is what the standard demands of the connect flags.
func (w *connIn) flagsOK(f int64) bool {
	will, qos, ret, pass, user := f>>2&1, f>>3&3, f>>5&1, f>>6&1, f>>7&1
	switch {
	case f&1 != 0, qos == 3, will == 0 && (qos != 0 || ret != 0), w.ver < 5 && pass == 1 && user == 0:
		return false
	}
	return true
}

// cleanOK tells whether the standard demands a clean session: an empty identifier before 5.0.
func (w *connIn) cleanOK(f int64, empty bool) bool { return w.ver >= 5 || !empty || f&2 != 0 }

func bit(b bool, n uint) int64 {
	if b {
		return 1 << n
	}
	return 0
}

// newConn creates the fields; the flags agree with the fields that follow.
func (c *Ctx) newConn(st *State, ver int64, will, user, pass bool) *connIn {
	w := &connIn{ver: ver, name: constSeq(protoNames[ver]), will: will, hasUser: user, hasPass: pass}
	w.level = c.num(ver, ver, "level")
	w.flags = c.num(0, 255, "flags")
	st.restrict(w.flags, func(v int64) bool {
		return v&0xC4 == bit(will, 2)|bit(pass, 6)|bit(user, 7)
	})
	w.ka = c.num(0, 65535, "keepAlive")
	w.cid, w.cidLen = c.blob("clientID", 0, 65535)
	w.wt, w.wtLen = c.blob("willTopic", 0, 65535)
	w.wp, _ = c.blob("willPayload", 0, 65535)
	w.user, _ = c.blob("user", 0, 65535)
	w.pass, _ = c.blob("pass", 0, 65535)
	w.props, w.willProps = constSeq("\x00"), constSeq("\x00")
	return w
}

// delivered compares what an accepted CONNECT reports with what was sent.
func (c *Ctx) delivered(st *State, w *connIn, m *Iface) {
	text := func(st *State, what string, v Val, q *Seq) {
		c.must(st, st.seqEq(st.content(st.finVal(v)), q) == 1, "delivered", "%s is %s for %s", what, c.show(st, v), q)
	}
	c.get(st, m, "ClientID", nil, func(st *State, v Val) { text(st, "ClientID()", v, w.cid) })
	c.get(st, m, "KeepAlive", nil, func(st *State, v Val) {
		c.must(st, st.eqNum(v, sv(w.ka)) == 1, "delivered", "KeepAlive() is %s", c.show(st, v))
	})
	c.get(st, m, "Version", nil, func(st *State, v Val) {
		c.must(st, st.eqNum(v, cst(w.ver)) == 1, "delivered", "Version() of a CONNECT with level %d is %s", w.ver, c.show(st, v))
	})
	c.get(st, m, "IsClean", nil, func(st *State, v Val) {
		b := st.must(v)
		for _, f := range []int64{0, 2} {
			t := st.clone()
			t.restrict(w.flags, func(v int64) bool { return v&2 == f })
			c.must(st, t.dead || b == (f != 0), "delivered", "IsClean() is %v for flags %s", b, t.showSym(w.flags))
		}
	})
	c.get(st, m, "Credentials", nil, func(st *State, v Val) {
		none := &Seq{}
		u, p := none, none
		if w.hasUser {
			u = w.user
		}
		if w.hasPass {
			p = w.pass
		}
		text(st, "the user name", tup(v, 0), u)
		text(st, "the password", tup(v, 1), p)
	})
	c.get(st, m, "Will", nil, func(st *State, v Val) {
		pt, _ := st.finVal(v).(*Ptr)
		if !c.must(st, (pt != nil && pt.obj != 0) == w.will, "delivered", "Will() is %s for flags %s", c.show(st, v), st.showSym(w.flags)) || !w.will {
			return
		}
		x := &Iface{types_ptr(c, "Publish"), pt}
		c.get(st, x, "Topic", nil, func(st *State, v Val) { text(st, "the will topic", v, w.wt) })
		c.get(st, x, "Payload", nil, func(st *State, v Val) { text(st, "the will payload", v, w.wp) })
		c.get(st, x, "QoS", nil, func(st *State, v Val) {
			for i := int64(0); i < 3; i++ {
				t := st.clone()
				t.restrict(w.flags, func(v int64) bool { return v>>3&3 == i })
				c.must(st, t.dead || t.eqNum(v, cst(i)) == 1, "delivered", "the will QoS is %s for flags %s", c.show(st, v), t.showSym(w.flags))
			}
		})
		c.get(st, x, "Retain", nil, func(st *State, v Val) {
			b := st.must(v)
			for i := int64(0); i < 2; i++ {
				t := st.clone()
				t.restrict(w.flags, func(v int64) bool { return v>>5&1 == i })
				c.must(st, t.dead || b == (i == 1), "delivered", "the will RETAIN is %v for flags %s", b, t.showSym(w.flags))
			}
		})
	})
}

// judge compares the decision on a CONNECT with the standard's.
func (c *Ctx) judge(st *State, w *connIn, m *Iface, err Val) {
	emptyID := st.decideAff('=', st.norm(S(w.cidLen)))
	legalName := st.seqEq(w.name, constSeq(protoNames[w.ver]))
	if m != nil {
		c.must(st, legalName == 1, "name", "a CONNECT with protocol name %s and level %d is accepted", w.name, w.ver)
		for f := int64(0); f < 256; f++ {
			if !st.may(w.flags, f) {
				continue
			}
			c.must(st, w.flagsOK(f), "flags", "a v%d CONNECT with connect flags 0x%02X is accepted", w.ver, f)
			if !w.cleanOK(f, true) {
				c.must(st, emptyID == 0, "empty-id", "a v%d CONNECT with an empty client identifier and flags 0x%02X is accepted", w.ver, f)
			}
		}
		c.within(st, gClientID, w.cid, "client-id", "a CONNECT is accepted")
		if w.hasUser {
			c.within(st, gText, w.user, "user-name", "a CONNECT with a user name is accepted")
		}
		if w.will {
			c.within(st, gPublishNonEmpty, w.wt, "will-topic", "a CONNECT with a will topic is accepted")
			c.must(st, !w.badProps, "will-props", "a CONNECT with a property no will may carry is accepted")
		}
		c.delivered(st, w, m)
		return
	}
	// refused: no flags, name and contents that are all permitted may be possible here
	if legalName == 0 || w.badProps {
		return
	}
	if ok, _ := c.possible(st, w.name, lang{pat: protoNames[w.ver]}); !ok {
		return
	}
	for f := int64(0); f < 256; f++ {
		if !st.may(w.flags, f) || !w.flagsOK(f) || !w.cleanOK(f, emptyID == 1) {
			continue
		}
		t := st.clone()
		t.restrict(w.flags, func(v int64) bool { return v == f })
		if !w.cleanOK(f, true) {
			t.setRange(w.cidLen, 1, 65535)
		}
		if t.dead {
			continue
		}
		wit := ""
		bad := false
		no := func(g grammar, q *Seq) {
			n, x := c.outside(t, g, q)
			bad = bad || n
			wit += " " + g.name + " " + x
		}
		no(gClientID, w.cid)
		if w.hasUser {
			no(gText, w.user)
		}
		if w.will {
			no(gPublishNonEmpty, w.wt)
		}
		if !c.must(st, bad, "permitted", "a v%d CONNECT with flags 0x%02X,%s is refused with %s", w.ver, f, wit, c.errName(st, err)) {
			return
		}
	}
}

func checkC17(r *Report) {
	for _, ver := range versions {
		for combo := 0; combo < 8; combo++ {
			ver, will, user, pass := ver, combo&1 != 0, combo&2 != 0, combo&4 != 0
			r.add(fmt.Sprintf("Decode(v%d CONNECT, will %v, user name %v, password %v)", ver, will, user, pass), func(c *Ctx) {
				st := c.state()
				w := c.newConn(st, ver, will, user, pass)
				c.split(st, func(st *State) {
					q := c.packet(st, tCONNECT, K(0), w.body(st))
					c.decodeSeq(st, ver, q, func(st *State, m *Iface, err Val) { c.judge(st, w, m, err) })
				})
			})
		}
		ver := ver
		// protocol names and levels
		r.add(fmt.Sprintf("Decode(CONNECT with any protocol name, level %d)", ver), func(c *Ctx) {
			st := c.state()
			w := c.newConn(st, ver, false, false, false)
			w.name, _ = c.blob("protocol", 0, 65535)
			w.cid = constSeq("id")
			st.setRange(w.cidLen, 2, 2)
			st.setRange(w.flags, 2, 2)
			c.split(st, func(st *State) {
				q := c.packet(st, tCONNECT, K(0), w.body(st))
				c.decodeSeq(st, ver, q, func(st *State, m *Iface, err Val) { c.judge(st, w, m, err) })
			})
		})
	}
	r.add("Decode(CONNECT with an unknown level)", func(c *Ctx) {
		for _, v := range []int64{3, 5} {
			st := c.state()
			w := c.newConn(st, v, false, false, false)
			w.name, _ = c.blob("protocol", 0, 65535)
			w.level = c.num(0, 255, "anyLevel")
			st.restrict(w.level, func(v int64) bool { return v < 3 || v > 5 })
			w.cid = constSeq("id")
			st.setRange(w.flags, 2, 2)
			c.split(st, func(st *State) {
				q := c.packet(st, tCONNECT, K(0), w.body(st))
				c.decodeSeq(st, 4, q, func(st *State, m *Iface, err Val) {
					c.must(st, m == nil, "level", "a CONNECT with level %s is accepted", st.showSym(w.level))
				})
			})
		}
	})
	for _, id := range []int64{0x0B, 0x23} {
		ps := propByID(id)
		r.add("Decode(v5 CONNECT with a will carrying "+ps.name+")", func(c *Ctx) {
			st := c.state()
			w := c.newConn(st, 5, true, false, false)
			w.badProps = true
			w.willProps = c.blocks(st, []*propVal{c.wireProp(st, ps, "")})[0]
			w.cid, w.wt, w.wp = constSeq("id"), constSeq("ab"), constSeq("cd")
			c.split(st, func(st *State) {
				q := c.packet(st, tCONNECT, K(0), w.body(st))
				c.decodeSeq(st, 5, q, func(st *State, m *Iface, err Val) { c.judge(st, w, m, err) })
			})
		})
	}
}

// connModel is what the accessors and the encoding of a CONNECT have to show.
type connModel struct {
	clean      Val
	user, pass *Seq // nil: none
	will       *Iface
	wt, wp     *Seq
	wq, wr     Val
	wprops     []*propVal
}

type connOp struct {
	name string
	// apply calls the setter; k gets the resulting model.
	apply func(c *Ctx, st *State, p *pkt, m connModel, i int, k func(st *State, m connModel))
}

// aWill creates a PUBLISH to be used as will.
func (c *Ctx) aWill(st *State, ver int64, topic, payload string, ps []int64, i int, k func(st *State, w *pkt, q, r Val, props []*propVal)) {
	q, ret := sv(c.num(0, 2, "willQoS")), sv(c.num(0, 1, "willRetain"))
	c.newPkt(st, ver, tPUBLISH, func(st *State, w *pkt) {
		fin := func(st *State) {
			var props []*propVal
			if ver >= 5 {
				for _, id := range ps {
					props = append(props, c.wireProp(st, propByID(id), fmt.Sprint("w", i)))
				}
			}
			c.setProps(st, w.msg, props, func(st *State) { k(st, w, q, ret, props) })
		}
		c.set(st, w.msg, "SetPayload", []Val{c.in.bytesOf(st, constSeq(payload), "will payload")}, func(st *State) {
			c.set(st, w.msg, "SetQoS", []Val{q}, func(st *State) {
				c.set(st, w.msg, "SetRetain", []Val{ret}, func(st *State) {
					if topic == "" {
						fin(st)
						return
					}
					c.set(st, w.msg, "SetTopic", []Val{&Str{constSeq(topic)}}, fin)
				})
			})
		})
	})
}

// outcome demands that a call succeeds (want 1), fails (0) or either (-1).
func (c *Ctx) outcome(st *State, p *pkt, name string, args []Val, want int, what string, was, now connModel, k func(st *State, m connModel)) {
	c.inv(st, p.msg, name, args, func(st *State, rv Val) {
		if t, ok := rv.(Tuple); ok && len(t) == 0 || rv == nil {
			k(st, now)
			return
		}
		c.split(st, func(st *State) {
			c.cells++
			ok := c.nilErr(st, rv)
			switch want {
			case 1:
				c.must(st, ok, "accepted", "%s with %s fails", name, what)
			case 0:
				c.must(st, !ok, "forbidden", "%s with %s succeeds before a packet is even encoded", name, what)
			}
			if ok {
				k(st, now)
			} else {
				k(st, was)
			}
		})
	})
}

func connOps(ver int64) (r []connOp) {
	add := func(name string, f func(c *Ctx, st *State, p *pkt, m connModel, i int, k func(st *State, m connModel))) {
		r = append(r, connOp{name, f})
	}
	add("SetClean", func(c *Ctx, st *State, p *pkt, m connModel, i int, k func(st *State, m connModel)) {
		v := sv(c.num(0, 1, "clean"))
		n := m
		n.clean = v
		c.outcome(st, p, "SetClean", []Val{v}, 1, "", m, n, k)
	})
	add("ResetWill", func(c *Ctx, st *State, p *pkt, m connModel, i int, k func(st *State, m connModel)) {
		n := m
		n.will = nil
		c.outcome(st, p, "ResetWill", nil, 1, "", m, n, k)
	})
	will := func(what, topic, payload string, want int, ps ...int64) {
		add("SetWill("+what+")", func(c *Ctx, st *State, p *pkt, m connModel, i int, k func(st *State, m connModel)) {
			pl := payload
			if pl != "" {
				pl += fmt.Sprint(i)
			}
			c.aWill(st, ver, topic, pl, ps, i, func(st *State, w *pkt, q, ret Val, props []*propVal) {
				n := m
				n.will, n.wt, n.wp, n.wq, n.wr, n.wprops = w.msg, constSeq(topic), constSeq(pl), q, ret, props
				c.outcome(st, p, "SetWill", []Val{w.msg.v}, want, what, m, n, k)
			})
		})
	}
	will("a will", "will/topic", "gone", 1)
	if ver >= 5 {
		will("a will with properties", "will/topic", "gone", 1, 0x18, 0x03)
		will("a will with a topic alias", "will/topic", "gone", 0, 0x23)
		will("a will with a subscription identifier", "will/topic", "gone", 0, 0x0B)
	}
	will("a will without topic", "", "gone", 0)
	will("a will without payload", "will/topic", "", -1)
	add("SetWill(nil)", func(c *Ctx, st *State, p *pkt, m connModel, i int, k func(st *State, m connModel)) {
		c.outcome(st, p, "SetWill", []Val{&Ptr{}}, 0, "no will", m, m, k)
	})
	creds := func(what string, user, pass string, want int) {
		add("SetCredentials("+what+")", func(c *Ctx, st *State, p *pkt, m connModel, i int, k func(st *State, m connModel)) {
			arg := func(s, name string) (Val, *Seq) {
				if s == "" {
					return &Slice{0, K(0), K(0), K(0)}, nil
				}
				q := constSeq(s + fmt.Sprint(i))
				return c.in.bytesOf(st, q, name), q
			}
			u, uq := arg(user, "user")
			w, wq := arg(pass, "password")
			n := m
			n.user, n.pass = uq, wq
			c.outcome(st, p, "SetCredentials", []Val{u, w}, want, what, m, n, k)
		})
	}
	creds("user and password", "user", "pass", 1)
	creds("user", "user", "", 1)
	creds("nothing", "", "", 1)
	pw := 0
	if ver >= 5 {
		pw = 1
	}
	creds("password", "", "pass", pw)
	creds("a user name with a control character", "a\x01b", "pass", 0)
	creds("a user name that is not UTF-8", "a\xffb", "", 0)
	return
}

// showsModel compares accessors and encoding with the model.
func (c *Ctx) showsModel(st *State, p *pkt, m connModel, cid *Seq, ka Val) {
	text := func(st *State, what string, v Val, q *Seq) {
		if q == nil {
			q = &Seq{}
		}
		c.must(st, st.seqEq(st.content(st.finVal(v)), q) == 1, "accessors", "%s is %s instead of %s", what, c.show(st, v), q)
	}
	c.get(st, p.msg, "ClientID", nil, func(st *State, v Val) { text(st, "ClientID()", v, cid) })
	c.get(st, p.msg, "KeepAlive", nil, func(st *State, v Val) {
		c.must(st, st.eqNum(v, ka) == 1, "accessors", "KeepAlive() is %s", c.show(st, v))
	})
	c.get(st, p.msg, "IsClean", nil, func(st *State, v Val) {
		c.must(st, c.same(st, v, m.clean) == 1, "accessors", "IsClean() is %s instead of %s", c.show(st, v), c.show(st, m.clean))
	})
	c.get(st, p.msg, "Credentials", nil, func(st *State, v Val) {
		text(st, "the user name", tup(v, 0), m.user)
		text(st, "the password", tup(v, 1), m.pass)
	})
	c.get(st, p.msg, "Will", nil, func(st *State, v Val) {
		pt, _ := st.finVal(v).(*Ptr)
		want := 0
		if m.will != nil {
			want = m.will.v.(*Ptr).obj
		}
		c.must(st, pt != nil && pt.obj == want, "accessors", "Will() is not the will set last")
	})
	flags := st.affOf(m.clean).scale(2)
	var will []part
	if m.will != nil {
		flags = flags.addc(4).plus(st.affOf(m.wq).scale(8)).plus(st.affOf(m.wr).scale(0x20))
		if p.ver >= 5 {
			will = append(will, part{block: true, props: m.wprops})
		}
		will = parts(will, seqs(lpSeq(m.wt), lpSeq(m.wp)))
	}
	if m.user != nil {
		flags = flags.addc(0x80)
		will = parts(will, seqs(lpSeq(m.user)))
	}
	if m.pass != nil {
		flags = flags.addc(0x40)
		will = parts(will, seqs(lpSeq(m.pass)))
	}
	q := p.clone()
	q.alts = [][]part{parts(seqs(lpSeq(constSeq(protoNames[p.ver])), byteSeq(cst(p.ver)), byteSeq(&Num{flags}), seqNum(ka, 2)), p.propPart(), seqs(lpSeq(cid)), will)}
	c.encoded(st, q, func(st *State, n *Aff, e encRes) {
		if c.must(st, e.ok, "emitted", "Encode fails with %s", c.errName(st, e.err)) {
			c.must(st, c.matchPkt(st, st.sub(e.now, K(0), st.affOf(e.n)), q), "emitted", "the packet is emitted as %s", e.now)
		}
	})
}

func checkC18(r *Report) {
	for _, ver := range versions {
		ver := ver
		ops := connOps(ver)
		start := func(c *Ctx, k func(st *State, p *pkt, m connModel, cid *Seq, ka Val)) {
			c.newPkt(c.state(), ver, tCONNECT, func(st *State, p *pkt) {
				cid, ka := constSeq("client"), sv(c.num(0, 65535, "keepAlive"))
				c.set(st, p.msg, "SetKeepAlive", []Val{ka}, func(st *State) {
					c.set(st, p.msg, "SetClientID", []Val{c.in.bytesOf(st, cid, "client id")}, func(st *State) {
						k(st, p, connModel{clean: cst(0)}, cid, ka)
					})
				})
			})
		}
		for i := range ops {
			for j := range ops {
				a, b := ops[i], ops[j]
				r.add(fmt.Sprintf("v%d %s, %s and any third call", ver, a.name, b.name), func(c *Ctx) {
					start(c, func(st *State, p *pkt, m connModel, cid *Seq, ka Val) {
						a.apply(c, st, p, m, 1, func(st *State, m connModel) {
							b.apply(c, st, p, m, 2, func(st *State, m connModel) {
								c.showsModel(st.clone(), p, m, cid, ka)
								for _, o := range ops {
									o.apply(c, st.clone(), p, m, 3, func(st *State, m connModel) { c.showsModel(st, p, m, cid, ka) })
								}
							})
						})
					})
				})
			}
		}
		// any user name and client identifier
		r.add(fmt.Sprintf("v%d SetCredentials(any user name)", ver), func(c *Ctx) {
			start(c, func(st *State, p *pkt, m connModel, cid *Seq, ka Val) {
				q, l := c.blob("user", 1, 65535)
				m.clean = cst(0)
				c.inv(st, p.msg, "SetCredentials", []Val{c.in.bytesOf(st, q, "user"), &Slice{0, K(0), K(0), K(0)}}, func(st *State, rv Val) {
					c.split(st, func(st *State) {
						_ = l
						m := m
						if c.nilErr(st, rv) {
							c.within(st, gText, q, "user-name", "SetCredentials accepts a user name")
							m.user = q
						} else {
							no, w := c.outside(st, gText, q)
							c.must(st, no, "user-name", "SetCredentials refuses the user name %s", w)
						}
						c.showsModel(st, p, m, cid, ka)
					})
				})
			})
		})
		r.add(fmt.Sprintf("v%d SetClientID(any identifier)", ver), func(c *Ctx) {
			start(c, func(st *State, p *pkt, m connModel, cid *Seq, ka Val) {
				q, _ := c.blob("id", 1, 65535)
				c.inv(st, p.msg, "SetClientID", []Val{c.in.bytesOf(st, q, "id")}, func(st *State, rv Val) {
					c.split(st, func(st *State) {
						cid := cid
						if c.nilErr(st, rv) {
							c.within(st, gClientID, q, "client-id", "SetClientID accepts an identifier")
							cid = q
						} else {
							no, w := c.outside(st, gClientID, q)
							c.must(st, no, "client-id", "SetClientID refuses the identifier %s", w)
						}
						c.showsModel(st, p, m, cid, ka)
					})
				})
			})
		})
	}
}
