package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Packets built through the public API with unknown arguments, and what the standard says their
// encoding is.

// part of an expected body: bytes, or a property block whose entries may come in any order.
type part struct {
	q     *Seq
	block bool
	props []*propVal
}

// propVal is a property that is set to a value, with its encoding.
type propVal struct {
	spec *propSpec
	val  Val                    // interface value given to PropertySet
	encs []func(st *State) *Seq // encoded occurrences, in order
	lps  []*Aff                 // lengths of length-prefixed fields
	big  Val                    // condition under which the value cannot be encoded at all (nil: never)
}

// pkt is a packet under construction.
type pkt struct {
	ver, typ int64
	msg      *Iface
	flags    *Aff     // low nibble of the first byte
	alts     [][]part // permitted bodies
	lps      []*Aff   // lengths that must fit 16 bits for the packet to be encodable
	props    []*propVal
	mustFail string // why the standard forbids the packet (empty: it does not)
	topics   []*Seq
	noID     bool // a PUBLISH that carries no identifier, whatever was set
}

func (p *pkt) clone() *pkt { q := *p; return &q }

func seqNum(v Val, w int) *Seq { return &Seq{[]Piece{{k: pNum, v: v, w: w}}} }
func byteSeq(v Val) *Seq       { return seqNum(v, 1) }
func lpSeq(q *Seq) *Seq        { return cat(seqNum(&Num{q.size()}, 2), q) }

// uvSeq is the variable byte integer e (splitting on its width).
func (c *Ctx) uvSeq(st *State, e *Aff) *Seq {
	e = st.norm(e)
	w := c.in.uvWidth(st, e, 5)
	return &Seq{[]Piece{{k: pUv, v: &Num{e}, w: w}}}
}

func (c *Ctx) typ(name string) types.Type {
	o := c.p.Pkg.Scope().Lookup(name)
	if o == nil {
		undecided("type %s not found", name)
	}
	return o.Type()
}

// list allocates a slice of the given elements.
func (c *Ctx) list(st *State, et types.Type, e ...Val) *Slice {
	n := K(int64(len(e)))
	return &Slice{st.alloc(&ArrV{append([]Val(nil), e...)}, et, "list"), K(0), n, n}
}

func (c *Ctx) utf8(st *State, q *Seq) {
	st.assume(c.in.pred(st, "utf8", "", q), true)
}

// propOf makes an unknown value for a property. n > 1 gives a list of n values.
func (c *Ctx) propOf(st *State, ps *propSpec, n int, tag string) *propVal {
	p := &propVal{spec: ps}
	id := &Seq{[]Piece{{k: pConst, b: []byte{byte(ps.id)}}}}
	var vals []Val
	var et types.Type
	for i := 0; i < n || n == 0 && i < 1; i++ {
		nm := fmt.Sprintf("%s%s%d", strings.ReplaceAll(ps.name, " ", ""), tag, i)
		switch ps.kind {
		case kByte:
			v := sv(c.num(0, 255, nm))
			vals, et = append(vals, v), types.Typ[types.Uint8]
			p.encs = append(p.encs, func(st *State) *Seq { return cat(id, byteSeq(v)) })
		case kShort:
			v := sv(c.num(0, 65535, nm))
			vals, et = append(vals, v), types.Typ[types.Uint16]
			p.encs = append(p.encs, func(st *State) *Seq { return cat(id, seqNum(v, 2)) })
		case kInt:
			v := sv(c.num(0, 1<<32-1, nm))
			vals, et = append(vals, v), types.Typ[types.Uint32]
			p.encs = append(p.encs, func(st *State) *Seq { return cat(id, seqNum(v, 4)) })
		case kVarInt:
			s := c.num(0, 1<<28-1, nm)
			vals, et = append(vals, sv(s)), types.Typ[types.Uint32]
			p.encs = append(p.encs, func(st *State) *Seq { return cat(id, c.uvSeq(st, S(s))) })
		case kString:
			q, l := c.blob(nm, 0, 1<<20)
			c.utf8(st, q)
			vals, et = append(vals, &Str{q}), types.Typ[types.String]
			p.encs = append(p.encs, func(st *State) *Seq { return cat(id, lpSeq(q)) })
			p.lps = append(p.lps, S(l))
		case kBinary:
			q, l := c.blob(nm, 0, 1<<20)
			vals, et = append(vals, c.in.bytesOf(st, q, nm)), types.NewSlice(types.Typ[types.Uint8])
			p.encs = append(p.encs, func(st *State) *Seq { return cat(id, lpSeq(q)) })
			p.lps = append(p.lps, S(l))
		case kPair:
			a, l := c.blob(nm+"K", 0, 1<<20)
			b, m := c.blob(nm+"V", 0, 1<<20)
			c.utf8(st, a)
			c.utf8(st, b)
			vals, et = append(vals, &StructV{[]Val{&Str{a}, &Str{b}}}), c.typ("StringPair")
			p.encs = append(p.encs, func(st *State) *Seq { return cat(id, lpSeq(a), lpSeq(b)) })
			p.lps = append(p.lps, S(l), S(m))
		}
	}
	if n == 0 {
		p.encs, p.lps = nil, nil
		p.val = &Iface{types.NewSlice(et), c.list(st, et)}
		return p
	}
	if n == 1 {
		p.val = &Iface{et, vals[0]}
		return p
	}
	p.val = &Iface{types.NewSlice(et), c.list(st, et, vals...)}
	return p
}

// blocks expands a property block into its permitted encodings.
func (c *Ctx) blocks(st *State, ps []*propVal) []*Seq {
	var groups []*Seq
	n := K(0)
	for _, p := range ps {
		g := &Seq{}
		for _, f := range p.encs {
			g = cat(g, f(st))
		}
		n = n.plus(g.size())
		groups = append(groups, g)
	}
	head := c.uvSeq(st, n)
	var r []*Seq
	var rec func(cur []*Seq, used int)
	rec = func(cur []*Seq, used int) {
		if len(cur) == len(groups) {
			r = append(r, cat(append([]*Seq{head}, cur...)...))
			return
		}
		for i := range groups {
			if used>>uint(i)&1 == 0 {
				rec(append(cur[:len(cur):len(cur)], groups[i]), used|1<<uint(i))
			}
		}
	}
	if len(groups) > 3 {
		return []*Seq{cat(append([]*Seq{head}, groups...)...)}
	}
	rec(nil, 0)
	return r
}

// bodies are the permitted bodies of a packet.
func (c *Ctx) bodies(st *State, p *pkt) []*Seq {
	var r []*Seq
	for _, alt := range p.alts {
		cur := []*Seq{{}}
		for _, x := range alt {
			opts := []*Seq{x.q}
			if x.block {
				opts = c.blocks(st, x.props)
			}
			var next []*Seq
			for _, a := range cur {
				for _, b := range opts {
					next = append(next, cat(a, b))
				}
			}
			cur = next
		}
		r = append(r, cur...)
	}
	return r
}

// wires are the permitted encodings of a packet.
func (c *Ctx) wires(st *State, p *pkt) []*Seq {
	var r []*Seq
	for _, b := range c.bodies(st, p) {
		r = append(r, cat(byteSeq(&Num{p.flags.addc(p.typ << 4)}), c.uvSeq(st, b.size()), b))
	}
	return r
}

// encodable decides whether all lengths fit, splitting.
func (c *Ctx) encodable(st *State, p *pkt) bool {
	for _, l := range p.lps {
		if !st.mustGE(K(65535), l) {
			return false
		}
	}
	for _, x := range p.props {
		for _, l := range x.lps {
			if !st.mustGE(K(65535), l) {
				return false
			}
		}
	}
	for _, b := range c.minBody(st, p) {
		if !st.mustGE(K(1<<28-1), b) {
			return false
		}
	}
	return true
}

// minBody is the body size of the packet as sizes, one for each permitted body.
func (c *Ctx) minBody(st *State, p *pkt) []*Aff { return c.minBodies(st, p)[:1] }

// minBodies are the sizes of the permitted bodies.
func (c *Ctx) minBodies(st *State, p *pkt) []*Aff {
	var r []*Aff
	for _, b := range c.bodies(st, p) {
		r = append(r, b.size())
	}
	return r
}

// ---- setters ------------------------------------------------------------------------------------

// set calls an error-returning (or void) setter; paths on which it refuses are dropped.
func (c *Ctx) set(st *State, m *Iface, name string, args []Val, k func(st *State)) {
	c.inv(st, m, name, args, func(st *State, r Val) {
		if t, ok := r.(Tuple); ok && len(t) == 0 || r == nil {
			k(st)
			return
		}
		c.split(st, func(st *State) {
			if c.nilErr(st, r) {
				k(st)
			}
		})
	})
}

// newPkt creates a packet through New.
func (c *Ctx) newPkt(st *State, ver, typ int64, k func(st *State, p *pkt)) {
	c.fn(st, "New", []Val{cst(ver), cst(typ)}, func(st *State, r Val) {
		m, ok := st.finVal(tup(r, 0)).(*Iface)
		if !ok || m.t == nil {
			c.fail(st, "creatable", "New(%d, %s) gives no packet", ver, typeNames[typ])
			return
		}
		k(st, &pkt{ver: ver, typ: typ, msg: m, flags: K(defaultFlags[typ])})
	})
}

// setProps sets the given properties; a refusal is a violation of C12's acceptance.
func (c *Ctx) setProps(st *State, m *Iface, ps []*propVal, k func(st *State)) {
	if len(ps) == 0 {
		k(st)
		return
	}
	c.inv(st, m, "PropertySet", []Val{cst(ps[0].spec.id), ps[0].val}, func(st *State, r Val) {
		c.split(st, func(st *State) {
			if c.must(st, c.nilErr(st, r), "settable", "setting %s is refused", ps[0].spec.name) {
				c.setProps(st, m, ps[1:], k)
			}
		})
	})
}

// ---- packet shapes ------------------------------------------------------------------------------

func needsID(typ int64) bool {
	switch typ {
	case tPUBACK, tPUBREC, tPUBREL, tPUBCOMP, tSUBSCRIBE, tSUBACK, tUNSUBSCRIBE, tUNSUBACK:
		return true
	}
	return false
}

// base builds a packet of the given kind with unknown field values and the given properties.
// variant selects the optional parts.
type opts struct {
	props   func(c *Ctx, st *State) []*propVal
	seq     func(c *Ctx, st *State, m *Iface, k func(st *State, final []*propVal)) // property operations instead
	variant string
	n       int   // list length
	big     bool  // PUBLISH payload of any length
	via     int64 // create with this version and call SetVersion (0: no)
}

func (c *Ctx) base(st *State, ver, typ int64, o opts, k func(st *State, p *pkt)) {
	v0 := ver
	if o.via != 0 {
		v0 = o.via
	}
	c.newPkt(st, v0, typ, func(st *State, p *pkt) {
		p.ver = ver
		go1 := func(st *State) {
			if o.seq != nil {
				o.seq(c, st, p.msg, func(st *State, final []*propVal) {
					p := p.clone()
					p.props = final
					c.fields(st, p, o, k)
				})
				return
			}
			if o.props != nil {
				p := p.clone()
				p.props = o.props(c, st)
				c.setProps(st, p.msg, p.props, func(st *State) { c.fields(st, p, o, k) })
				return
			}
			c.fields(st, p, o, k)
		}
		if o.via != 0 {
			c.inv(st, p.msg, "SetVersion", []Val{cst(ver)}, func(st *State, _ Val) { go1(st) })
			return
		}
		go1(st)
	})
}

// propPart is the property block of a v5 packet.
func (p *pkt) propPart() []part {
	if p.ver < 5 {
		return nil
	}
	return []part{{block: true, props: p.props}}
}
func seqs(q ...*Seq) []part {
	var r []part
	for _, x := range q {
		r = append(r, part{q: x})
	}
	return r
}
func parts(ps ...[]part) []part {
	var r []part
	for _, p := range ps {
		r = append(r, p...)
	}
	return r
}

func (c *Ctx) fields(st *State, p *pkt, o opts, k func(st *State, p *pkt)) {
	if needsID(p.typ) && o.variant != "noid" {
		id := c.num(1, 65535, "id")
		c.set(st, p.msg, "SetPacketID", []Val{sv(id)}, func(st *State) { c.fields2(st, p.clone(), o, seqNum(sv(id), 2), k) })
		return
	}
	c.fields2(st, p.clone(), o, nil, k)
}

func (c *Ctx) fields2(st *State, p *pkt, o opts, id *Seq, k func(st *State, p *pkt)) {
	in := c.in
	if o.variant == "noid" {
		p.mustFail = "it has no packet identifier"
		id = &Seq{}
	}
	switch p.typ {
	case tPINGREQ, tPINGRESP:
		p.alts = [][]part{nil}
		k(st, p)
	case tCONNACK:
		sp := c.num(0, 1, "sessionPresent")
		code := c.num(0, 255, "code")
		c.set(st, p.msg, "SetSessionPresent", []Val{sv(sp)}, func(st *State) {
			c.set(st, p.msg, "SetReturnCode", []Val{sv(code)}, func(st *State) {
				p := p.clone()
				p.alts = [][]part{parts(seqs(byteSeq(sv(sp)), byteSeq(sv(code))), p.propPart())}
				k(st, p)
			})
		})
	case tPUBACK, tPUBREC, tPUBREL, tPUBCOMP:
		if p.ver < 5 {
			p.alts = [][]part{seqs(id)}
			k(st, p)
			return
		}
		code := c.num(0, 255, "code")
		c.set(st, p.msg, "SetReason", []Val{sv(code)}, func(st *State) {
			c.split(st, func(st *State) {
				p := p.clone()
				st.restrict(code, func(v int64) bool { return reasonCodesV5[p.typ][v] })
				full := parts(seqs(id, byteSeq(sv(code))), p.propPart())
				p.alts = [][]part{full}
				if len(p.props) == 0 {
					p.alts = [][]part{seqs(id, byteSeq(sv(code))), full}
					if st.mustEQ(S(code), K(0)) {
						p.alts = append([][]part{seqs(id)}, p.alts...)
					}
				}
				k(st, p)
			})
		})
	case tDISCONNECT:
		if p.ver < 5 {
			p.alts = [][]part{nil}
			k(st, p)
			return
		}
		code := c.num(0, 255, "code")
		c.set(st, p.msg, "SetReasonCode", []Val{sv(code)}, func(st *State) {
			c.split(st, func(st *State) {
				p := p.clone()
				st.restrict(code, func(v int64) bool { return reasonCodesV5[p.typ][v] })
				full := parts(seqs(byteSeq(sv(code))), p.propPart())
				p.alts = [][]part{full}
				if len(p.props) == 0 {
					p.alts = [][]part{seqs(byteSeq(sv(code))), full}
					if st.mustEQ(S(code), K(0)) {
						p.alts = append([][]part{nil}, p.alts...)
					}
				}
				k(st, p)
			})
		})
	case tAUTH:
		code := c.num(0, 255, "code")
		c.set(st, p.msg, "SetReasonCode", []Val{sv(code)}, func(st *State) {
			c.split(st, func(st *State) {
				p := p.clone()
				p.alts = [][]part{parts(seqs(byteSeq(sv(code))), p.propPart())}
				if len(p.props) == 0 && st.mustEQ(S(code), K(0)) {
					p.alts = append(p.alts, nil)
				}
				k(st, p)
			})
		})
	case tSUBACK, tUNSUBACK:
		var codes []*Sym
		var vals []Val
		tail := &Seq{}
		for i := 0; i < o.n; i++ {
			s := c.num(0, 255, fmt.Sprintf("code%d", i))
			if o.n > 4 {
				st.setRange(s, 0, 0)
			}
			codes = append(codes, s)
			vals = append(vals, sv(s))
			if p.typ == tSUBACK || p.ver >= 5 {
				tail = cat(tail, byteSeq(sv(s)))
			}
		}
		l := c.list(st, c.typ("ReasonCode"), vals...)
		add := func(st *State) {
			p := p.clone()
			p.alts = [][]part{parts(seqs(id), p.propPart(), seqs(tail))}
			k(st, p)
		}
		if len(vals) == 0 || p.typ == tUNSUBACK && p.ver < 5 {
			add(st)
			return
		}
		c.set(st, p.msg, "AddReturnCodes", []Val{l}, add)
	case tSUBSCRIBE, tUNSUBSCRIBE:
		p.alts = [][]part{parts(seqs(id), p.propPart())}
		if o.n == 0 && p.mustFail == "" {
			p.mustFail = "it has no topics"
		}
		c.addTopics(st, p, o, o.n, k)
	case tPUBLISH:
		c.publish(st, p, o, k)
	case tCONNECT:
		c.connect(st, p, o, k)
	default:
		undecided("shape of type %d", p.typ)
	}
	_ = in
}

func (c *Ctx) addTopics(st *State, p *pkt, o opts, n int, k func(st *State, p *pkt)) {
	if n == 0 {
		k(st, p)
		return
	}
	q, l := c.blob(fmt.Sprintf("topic%d", n), 1, 1<<20)
	if o.n > 1 || o.variant == "plain" {
		// several topics: none of them $-prefixed (single ones cover the prefix)
		st.assumeAff('!', st.affOf(st.byteAt(q, K(0))).addc(-'$'))
	}
	if o.n > 4 {
		st.setRange(l, 7, 7)
	}
	p.lps = append(p.lps[:len(p.lps):len(p.lps)], S(l))
	arg := c.in.bytesOf(st, q, "topic")
	done := func(st *State, r Val, extra *Seq) {
		c.split(st, func(st *State) {
			if !c.nilErr(st, tup(r, 1)) {
				return
			}
			c.set(st, p.msg, "AddTopic", []Val{tup(r, 0)}, func(st *State) {
				p := p.clone()
				p.topics = append(p.topics[:len(p.topics):len(p.topics)], q)
				a := p.alts[0]
				p.alts = [][]part{parts(a[:len(a):len(a)], seqs(lpSeq(q), extra))}
				c.addTopics(st, p, o, n-1, k)
			})
		})
	}
	if p.typ == tUNSUBSCRIBE {
		c.fn(st, "NewTopic", []Val{arg}, func(st *State, r Val) { done(st, r, &Seq{}) })
		return
	}
	ops := c.num(0, 255, fmt.Sprintf("ops%d", n))
	mask := int64(0xFC)
	if p.ver >= 5 {
		mask = 0xC0
	}
	st.restrict(ops, func(v int64) bool { return v&mask == 0 && v&3 != 3 && v>>4&3 != 3 })
	if o.n > 4 {
		st.setRange(ops, 1, 1)
	}
	c.fn(st, "NewSubscribeTopic", []Val{arg, sv(ops)}, func(st *State, r Val) { done(st, r, byteSeq(sv(ops))) })
}

func hasProp(ps []*propVal, id int64) *propVal {
	for _, p := range ps {
		if p.spec.id == id {
			return p
		}
	}
	return nil
}

func (c *Ctx) publish(st *State, p *pkt, o opts, k func(st *State, p *pkt)) {
	topic, tl := c.blob("topic", 0, 1<<20)
	max := int64(1 << 27)
	if o.big {
		max = 1 << 40
	}
	pay, _ := c.blob("payload", 0, max)
	qos, ret, dup, id := c.num(0, 2, "qos"), c.num(0, 1, "retain"), c.num(0, 1, "dup"), c.num(0, 65535, "id")
	body := c.in.bytesOf(st, pay, "payload")
	fin := func(st *State, withID bool) {
		c.split(st, func(st *State) {
			p := p.clone()
			p.lps = append(p.lps[:len(p.lps):len(p.lps)], S(tl))
			p.flags = S(ret).plus(S(qos).scale(2)).plus(S(dup).scale(8))
			idq := &Seq{}
			if !st.mustEQ(S(qos), K(0)) {
				idq = seqNum(sv(id), 2)
				if !withID {
					p.mustFail = "it has no packet identifier"
				} else if st.mustEQ(S(id), K(0)) {
					p.mustFail = "its packet identifier is zero"
				}
			} else if p.noID = true; st.mustEQ(S(dup), K(1)) {
				p.mustFail = "DUP is set at QoS 0"
			}
			if st.mustEQ(S(tl), K(0)) {
				ok := false
				if a := hasProp(p.props, 0x23); a != nil && p.ver >= 5 {
					ok = !st.mustEQ(st.affOf(a.val.(*Iface).v), K(0))
				}
				if !ok {
					p.mustFail = "its topic is empty and it has no topic alias"
				}
			}
			p.topics = []*Seq{topic}
			p.alts = [][]part{parts(seqs(lpSeq(topic), idq), p.propPart(), seqs(pay))}
			k(st, p)
		})
	}
	ids := func(st *State) {
		if o.variant == "noid" {
			fin(st, false)
			return
		}
		c.set(st, p.msg, "SetPacketID", []Val{sv(id)}, func(st *State) { fin(st, true) })
	}
	switch o.variant {
	case "Set", "noid":
		p.mustFail = ""
		c.set(st, p.msg, "Set", []Val{&Str{topic}, body, sv(qos), sv(ret), sv(dup)}, ids)
	default:
		p.mustFail = ""
		c.set(st, p.msg, "SetQoS", []Val{sv(qos)}, func(st *State) {
			c.set(st, p.msg, "SetRetain", []Val{sv(ret)}, func(st *State) {
				c.set(st, p.msg, "SetDup", []Val{sv(dup)}, func(st *State) {
					c.set(st, p.msg, "SetPayload", []Val{body}, func(st *State) {
						c.split(st, func(st *State) {
							if st.mustEQ(S(tl), K(0)) {
								ids(st) // topic left unset
								return
							}
							c.set(st, p.msg, "SetTopic", []Val{&Str{topic}}, ids)
						})
					})
				})
			})
		})
	}
}

// connect variants: comma separated subset of will, user, pass, willprops
func (c *Ctx) connect(st *State, p *pkt, o opts, k func(st *State, p *pkt)) {
	has := func(s string) bool { return strings.Contains(","+o.variant+",", ","+s+",") }
	clean, ka := c.num(0, 1, "clean"), c.num(0, 65535, "keepAlive")
	cid, cl := c.blob("clientID", 0, 1<<20)
	user, ul := c.blob("user", 1, 1<<20)
	pass, pl := c.blob("pass", 1, 1<<20)
	proto := "MQTT"
	if p.ver == 3 {
		proto = "MQIsdp"
	}
	flags := S(clean).scale(2)
	p.lps = append(p.lps, S(cl))
	finish := func(st *State, p *pkt, flags *Aff, will []part) {
		c.split(st, func(st *State) {
			p := p.clone()
			p.alts = [][]part{parts(seqs(lpSeq(constSeq(proto)), byteSeq(cst(p.ver)), byteSeq(&Num{flags}), seqNum(sv(ka), 2)), p.propPart(), seqs(lpSeq(cid)), will, c.creds(user, pass, has("user"), has("pass")))}
			if p.ver < 5 && st.mustEQ(S(cl), K(0)) && st.mustEQ(S(clean), K(0)) {
				p.mustFail = "?" // decoding refuses it; not settled for encoding
			}
			k(st, p)
		})
	}
	withCreds := func(st *State, p *pkt, flags *Aff, will []part) {
		if !has("user") && !has("pass") {
			finish(st, p, flags, will)
			return
		}
		var u, w Val = &Slice{0, K(0), K(0), K(0)}, &Slice{0, K(0), K(0), K(0)}
		p = p.clone()
		p.lps = p.lps[:len(p.lps):len(p.lps)]
		if has("user") {
			u = c.in.bytesOf(st, user, "user")
			flags = flags.addc(0x80)
			p.lps = append(p.lps, S(ul))
		}
		if has("pass") {
			w = c.in.bytesOf(st, pass, "password")
			flags = flags.addc(0x40)
			p.lps = append(p.lps, S(pl))
		}
		c.set(st, p.msg, "SetCredentials", []Val{u, w}, func(st *State) { finish(st, p, flags, will) })
	}
	withWill := func(st *State) {
		if !has("will") {
			withCreds(st, p, flags, nil)
			return
		}
		wt, wl := c.blob("willTopic", 1, 1<<20)
		wp, wpl := c.blob("willPayload", 1, 1<<20)
		wq, wr := c.num(0, 2, "willQoS"), c.num(0, 1, "willRetain")
		c.newPkt(st, p.ver, tPUBLISH, func(st *State, w *pkt) {
			body := c.in.bytesOf(st, wp, "will payload")
			c.set(st, w.msg, "Set", []Val{&Str{wt}, body, sv(wq), sv(wr), cst(0)}, func(st *State) {
				c.split(st, func(st *State) {
					var wprops []*propVal
					if has("willprops") {
						wprops = []*propVal{c.propOf(st, propByID(0x18), 1, "w"), c.propOf(st, propByID(0x03), 1, "w")}
					}
					c.setProps(st, w.msg, wprops, func(st *State) {
						c.set(st, p.msg, "SetWill", []Val{w.msg.v}, func(st *State) {
							p := p.clone()
							p.lps = append(p.lps[:len(p.lps):len(p.lps)], S(wl), S(wpl))
							for _, x := range wprops {
								p.lps = append(p.lps, x.lps...)
							}
							will := []part{}
							if p.ver >= 5 {
								will = append(will, part{block: true, props: wprops})
							}
							will = parts(will, seqs(lpSeq(wt), lpSeq(wp)))
							withCreds(st, p, flags.addc(4).plus(S(wq).scale(8)).plus(S(wr).scale(0x20)), will)
						})
					})
				})
			})
		})
	}
	c.set(st, p.msg, "SetClean", []Val{sv(clean)}, func(st *State) {
		c.set(st, p.msg, "SetKeepAlive", []Val{sv(ka)}, func(st *State) {
			c.set(st, p.msg, "SetClientID", []Val{c.in.bytesOf(st, cid, "client id")}, withWill)
		})
	})
}

func (c *Ctx) creds(user, pass *Seq, hu, hp bool) []part {
	var r []part
	if hu {
		r = parts(r, seqs(lpSeq(user)))
	}
	if hp {
		r = parts(r, seqs(lpSeq(pass)))
	}
	return r
}

func propByID(id int64) *propSpec {
	for i := range propTable {
		if propTable[i].id == id {
			return &propTable[i]
		}
	}
	undecided("property 0x%02X", id)
	return nil
}

// ---- observations -------------------------------------------------------------------------------

type obsVal struct {
	name string
	v    Val
}

// observe reads everything the accessors of a packet report (except the remaining length).
func (c *Ctx) observe(st *State, m *Iface, k func(st *State, o []obsVal)) {
	type step struct {
		name string
		args []Val
	}
	steps := []step{{"Type", nil}, {"Version", nil}, {"Flags", nil}, {"ID", nil}}
	t := typeName(m.t)
	switch t {
	case "Connect":
		steps = append(steps, step{"IsClean", nil}, step{"KeepAlive", nil}, step{"ClientID", nil}, step{"Credentials", nil}, step{"Will", nil})
	case "ConnAck":
		steps = append(steps, step{"SessionPresent", nil}, step{"ReturnCode", nil})
	case "Publish":
		steps = append(steps, step{"Topic", nil}, step{"Payload", nil}, step{"QoS", nil}, step{"Retain", nil}, step{"Dup", nil})
	case "Ack":
		steps = append(steps, step{"Reason", nil})
	case "SubAck", "UnSubAck":
		steps = append(steps, step{"ReturnCodes", nil})
	case "Disconnect", "Auth":
		steps = append(steps, step{"ReasonCode", nil})
	case "Subscribe", "UnSubscribe":
		steps = append(steps, step{"ForEachTopic", nil})
	case "PingReq", "PingResp":
	default:
		undecided("unknown packet type %s", t)
	}
	steps = append(steps, step{"props", nil})
	var rec func(st *State, i int, o []obsVal)
	rec = func(st *State, i int, o []obsVal) {
		if i == len(steps) {
			k(st, o)
			return
		}
		s := steps[i]
		switch s.name {
		case "props":
			c.observeProps(st, m, func(st *State, p []obsVal) { rec(st, i+1, append(o[:len(o):len(o)], p...)) })
			return
		case "ForEachTopic":
			c.forEachTopic(st, m, func(st *State, ts []Val) {
				c.observeTopics(st, ts, 0, nil, func(st *State, p []obsVal) { rec(st, i+1, append(o[:len(o):len(o)], p...)) })
			})
			return
		}
		c.inv(st, m, s.name, s.args, func(st *State, r Val) {
			if s.name == "Will" {
				w, ok := st.finVal(r).(*Ptr)
				if !ok {
					undecided("Will() is %s", valStr(r))
				}
				if w.obj != 0 {
					c.observe(st, &Iface{types_ptr(c, "Publish"), w}, func(st *State, p []obsVal) {
						for _, x := range p {
							if x.name != "Version" {
								o = append(o[:len(o):len(o)], obsVal{"Will." + x.name, x.v})
							}
						}
						rec(st, i+1, o)
					})
					return
				}
			}
			if tu, ok := r.(Tuple); ok {
				for j, x := range tu {
					o = append(o[:len(o):len(o)], obsVal{fmt.Sprintf("%s()#%d", s.name, j), x})
				}
				rec(st, i+1, o)
				return
			}
			rec(st, i+1, append(o[:len(o):len(o)], obsVal{s.name + "()", r}))
		})
	}
	rec(st, 0, nil)
}

// forEachTopic collects the topics a packet delivers.
func (c *Ctx) forEachTopic(st *State, m *Iface, k func(st *State, ts []Val)) {
	box := st.alloc(&ArrV{}, nil, "topics")
	name := "callback:topics"
	c.in.override[name] = func(in *Interp, st *State, args []Val, site ssa.Instruction) []Outcome {
		a := st.get(box).(*ArrV)
		st.set(box, &ArrV{append(a.e[:len(a.e):len(a.e)], args[len(args)-1])})
		return one(st, &Iface{})
	}
	c.inv(st, m, "ForEachTopic", []Val{&Func{ext: name}}, func(st *State, r Val) {
		k(st, st.get(box).(*ArrV).e)
	})
}

func (c *Ctx) observeTopics(st *State, ts []Val, i int, o []obsVal, k func(st *State, o []obsVal)) {
	if i == len(ts) {
		k(st, append(o, obsVal{"number of topics", cst(int64(len(ts)))}))
		return
	}
	ti := &Iface{types_ptr(c, "Topic"), ts[i]}
	names := []string{"Full", "Filter", "ShareName", "Ops", "DollarPrefix"}
	var rec func(st *State, j int, o []obsVal)
	rec = func(st *State, j int, o []obsVal) {
		if j == len(names) {
			c.observeTopics(st, ts, i+1, o, k)
			return
		}
		c.inv(st, ti, names[j], nil, func(st *State, r Val) {
			rec(st, j+1, append(o[:len(o):len(o)], obsVal{fmt.Sprintf("topic %d %s()", i, names[j]), r}))
		})
	}
	rec(st, 0, o)
}

var kindAs = map[int]string{kByte: "AsByte", kShort: "AsShort", kInt: "AsInt", kVarInt: "AsInts", kString: "AsString", kPair: "AsStringPairs", kBinary: "AsBinary"}

// observeProps reads every property the standard knows.
func (c *Ctx) observeProps(st *State, m *Iface, k func(st *State, o []obsVal)) {
	var rec func(st *State, i int, o []obsVal)
	rec = func(st *State, i int, o []obsVal) {
		if i == len(propTable) {
			k(st, o)
			return
		}
		ps := &propTable[i]
		c.inv(st, m, "PropertyGet", []Val{cst(ps.id)}, func(st *State, r Val) {
			x, ok := st.finVal(r).(*Iface)
			if !ok {
				undecided("PropertyGet gives %s", valStr(r))
			}
			if x.t == nil || nilPtr(x.v) {
				rec(st, i+1, o)
				return
			}
			c.propValue(st, x, func(st *State, v Val) {
				rec(st, i+1, append(o[:len(o):len(o)], obsVal{"property " + ps.name, v}))
			})
		})
	}
	rec(st, 0, nil)
}

// propValue reads the value of a property accessor: the list of all its values.
func (c *Ctx) propValue(st *State, x *Iface, k func(st *State, v Val)) {
	as := []string{"AsByte", "AsShort", "AsInts", "AsString", "AsStringPair", "AsStringPairs", "AsBinary"}
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == len(as) {
			k(st, &Opaque{})
			return
		}
		c.inv(st, x, as[i], nil, func(st *State, r Val) {
			c.split(st, func(st *State) {
				if c.nilErr(st, tup(r, 1)) {
					k(st, Tuple{&Str{constSeq(strings.TrimSuffix(as[i], "s"))}, tup(r, 0)})
				} else {
					rec(st, i+1)
				}
			})
		})
	}
	rec(st, 0)
}

// same compares two observed values by content: 1 equal, 0 different, -1 unknown.
func (c *Ctx) same(st *State, a, b Val) int {
	a, b = st.finVal(a), st.finVal(b)
	switch x := a.(type) {
	case *Num, *Fin, *Cond:
		switch b.(type) {
		case *Num, *Fin, *Cond:
			return st.eqNum(a, b)
		}
		return -1
	case *Str:
		if y, ok := b.(*Str); ok {
			return st.seqEq(x.q, y.q)
		}
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			if l, isL := b.(*StructV); isL { // a single value against a list of one
				return c.same(st, a, c.list(st, nil, l))
			}
			return -1
		}
		xe, xb := c.elems(st, x)
		ye, yb := c.elems(st, y)
		if xb != nil || yb != nil {
			if xb == nil {
				xb = &Seq{}
			}
			if yb == nil {
				yb = &Seq{}
			}
			for _, e := range xe {
				xb = cat(xb, byteSeq(e))
			}
			for _, e := range ye {
				yb = cat(yb, byteSeq(e))
			}
			return st.seqEq(xb, yb)
		}
		if len(xe) != len(ye) {
			return 0
		}
		r := 1
		for i := range xe {
			s := c.same(st, xe[i], ye[i])
			if s == 0 {
				return 0
			}
			if s < 0 {
				r = -1
			}
		}
		return r
	case *StructV:
		if l, isL := b.(*Slice); isL {
			return c.same(st, l, a)
		}
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return -1
		}
		r := 1
		for i := range x.f {
			s := c.same(st, x.f[i], y.f[i])
			if s == 0 {
				return 0
			}
			if s < 0 {
				r = -1
			}
		}
		return r
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return -1
		}
		r := 1
		for i := range x {
			s := c.same(st, x[i], y[i])
			if s == 0 {
				return 0
			}
			if s < 0 {
				r = -1
			}
		}
		return r
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return -1
		}
		if x.t == nil || y.t == nil {
			return b2i(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return 0
		}
		return c.same(st, x.v, y.v)
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			return b2i(x.obj == y.obj)
		}
	case *TimeV:
		if y, ok := b.(*TimeV); ok {
			return st.decideAff('=', x.e.minus(y.e))
		}
	case *ErrNew:
		if y, ok := b.(*ErrNew); ok {
			return b2i(x.id == y.id)
		}
	}
	return -1
}

// elems gives the elements of a slice, or its content when it holds bytes.
func (c *Ctx) elems(st *State, s *Slice) ([]Val, *Seq) {
	if s.obj == 0 {
		return nil, nil
	}
	switch x := st.get(s.obj).(type) {
	case *Bytes:
		return nil, st.content(s)
	case *ArrV:
		o, n := st.norm(s.off), st.norm(s.len)
		if !o.isConst() || !n.isConst() {
			undecided("list of unknown length")
		}
		return x.e[o.c : o.c+n.c], nil
	}
	undecided("elements of %s", valStr(st.get(s.obj)))
	return nil, nil
}

// sameObs compares two observations; diff names the first that is not equal.
func (c *Ctx) sameObs(st *State, a, b []obsVal, skip func(name string) bool) (diff string) {
	ma, mb := map[string]Val{}, map[string]Val{}
	var names []string
	for _, x := range a {
		ma[x.name] = x.v
		names = append(names, x.name)
	}
	for _, x := range b {
		mb[x.name] = x.v
		if _, ok := ma[x.name]; !ok {
			names = append(names, x.name)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if skip != nil && skip(n) {
			continue
		}
		x, ok1 := ma[n]
		y, ok2 := mb[n]
		if !ok1 || !ok2 {
			return n + " is present on one side only"
		}
		if c.same(st, x, y) != 1 {
			return fmt.Sprintf("%s: %s against %s", n, c.show(st, x), c.show(st, y))
		}
	}
	return ""
}

func (c *Ctx) show(st *State, v Val) string {
	switch x := st.finVal(v).(type) {
	case *Slice:
		e, b := c.elems(st, x)
		if b != nil {
			return b.String()
		}
		var r []string
		for _, y := range e {
			r = append(r, c.show(st, y))
		}
		return "[" + strings.Join(r, " ") + "]"
	case Tuple:
		var r []string
		for _, y := range x {
			r = append(r, c.show(st, y))
		}
		return "(" + strings.Join(r, ", ") + ")"
	case *Num:
		return st.norm(x.e).String()
	}
	return valStr(st.finVal(v))
}
