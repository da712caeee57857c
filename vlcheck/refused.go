package main

import (
	"fmt"
	"go/types"
)

// A call that is refused leaves the packet as it was: for every setter that can fail, from packets of
// every family, with any argument.

func checkC38(r *Report) {
	code := func(c *Ctx, i int) Val { return sv(c.in.symKey(fmt.Sprint("rc", i), fmt.Sprint("code", i), 0, 255)) }
	any := func(c *Ctx, st *State, name string, hi int64) *Seq {
		l := c.in.symKey("len|"+name, "len "+name, 0, hi)
		return &Seq{[]Piece{{k: pBlob, base: c.in.blobKey("any|" + name), off: K(0), n: S(l)}}}
	}
	qos := func(c *Ctx) Val { return sv(c.in.symKey("newQoS", "newQoS", 0, 255)) }
	flag := func(c *Ctx, n string) Val { return sv(c.in.symKey("new"+n, "new"+n, 0, 1)) }
	type op struct {
		name, what string
		args       func(c *Ctx, st *State) []Val
	}
	codes := func(n int) op {
		return op{"AddReturnCodes", fmt.Sprintf("%d codes", n), func(c *Ctx, st *State) []Val {
			var l []Val
			for i := 0; i < n; i++ {
				l = append(l, code(c, i))
			}
			return []Val{c.list(st, c.typ("ReasonCode"), l...)}
		}}
	}
	addCode := op{"AddReturnCode", "any code", func(c *Ctx, st *State) []Val { return []Val{code(c, 0)} }}
	nilSlice := &Slice{0, K(0), K(0), K(0)}
	ops := map[int64][]op{
		tCONNECT: {
			{"SetClientID", "any identifier", func(c *Ctx, st *State) []Val { return []Val{c.in.bytesOf(st, any(c, st, "id", 1<<20), "id")} }},
			{"SetCredentials", "any user name and password", func(c *Ctx, st *State) []Val {
				return []Val{c.in.bytesOf(st, any(c, st, "user", 1<<20), "user"), c.in.bytesOf(st, any(c, st, "password", 1<<20), "password")}
			}},
			{"SetCredentials", "a password only", func(c *Ctx, st *State) []Val {
				return []Val{nilSlice, c.in.bytesOf(st, any(c, st, "password", 1<<20), "password")}
			}},
			{"SetWill", "no message", func(c *Ctx, st *State) []Val { return []Val{&Ptr{}} }},
		},
		tCONNACK:  {{"SetReturnCode", "any code", func(c *Ctx, st *State) []Val { return []Val{code(c, 0)} }}},
		tAUTH:     {{"SetReasonCode", "any code", func(c *Ctx, st *State) []Val { return []Val{code(c, 0)} }}},
		tSUBACK:   {addCode, codes(1), codes(2), codes(3), codes(5)},
		tUNSUBACK: {addCode, codes(1), codes(2), codes(3), codes(5)},
		tPUBLISH: {
			{"SetQoS", "any QoS", func(c *Ctx, st *State) []Val { return []Val{qos(c)} }},
			{"SetTopic", "any topic", func(c *Ctx, st *State) []Val { return []Val{&Str{any(c, st, "topic", 1<<20)}} }},
			{"Set", "any values", func(c *Ctx, st *State) []Val {
				return []Val{&Str{any(c, st, "topic", 1<<20)}, c.in.bytesOf(st, any(c, st, "payload", 1<<20), "payload"), qos(c), flag(c, "Retain"), flag(c, "Dup")}
			}},
		},
	}
	// wills: an unfinished one, and ones with properties no will may carry
	wills := []struct {
		what, topic, payload string
		props                []int64
	}{{"an empty message", "", "", nil}, {"a message without payload", "w", "", nil}, {"a message without topic", "", "p", nil},
		{"a message with a topic alias", "w", "p", []int64{0x23}}, {"a message with a content type and a topic alias", "w", "p", []int64{0x03, 0x23}}}
	refuse := func(c *Ctx, st *State, p *pkt, name, what string, args []Val) {
		c.observe(st, p.msg, func(st *State, o0 []obsVal) {
			c.inv(st, p.msg, name, args, func(st *State, rv Val) {
				if t, void := rv.(Tuple); void && len(t) == 0 || rv == nil {
					return
				}
				c.split(st, func(st *State) {
					c.cells++
					if c.nilErr(st, rv) {
						return
					}
					c.observe(st.clone(), p.msg, func(st *State, o1 []obsVal) {
						d := c.sameObs(st, o0, o1, nil)
						c.must(st, d == "", "refused-unchanged", "%s with %s is refused but changes %s", name, what, d)
					})
					c.encoded(st, p, func(st *State, n *Aff, e encRes) {
						if c.must(st, e.ok, "refused-encodes", "after a refused %s with %s the packet cannot be encoded: %s", name, what, c.errName(st, e.err)) {
							got := st.sub(e.now, K(0), st.affOf(e.n))
							c.must(st, c.matchPkt(st, got, p), "refused-encodes", "after a refused %s with %s the packet is encoded as %s", name, what, got)
						}
					})
				})
			})
		})
	}
	for _, s := range plainScens() {
		s := s
		if s.o.n > 2 || len(ops[s.typ]) == 0 {
			continue
		}
		for _, op := range ops[s.typ] {
			op := op
			r.add(fmt.Sprintf("%s with %s on %s", op.name, op.what, s.name), func(c *Ctx) {
				c.useUv()
				c.base(c.state(), s.ver, s.typ, s.o, func(st *State, p *pkt) {
					c.split(st, func(st *State) { refuse(c, st, p, op.name, op.what, op.args(c, st)) })
				})
			})
		}
		if s.typ != tCONNECT {
			continue
		}
		for _, w := range wills {
			w := w
			if s.ver < 5 && w.props != nil {
				continue
			}
			r.add(fmt.Sprintf("SetWill with %s on %s", w.what, s.name), func(c *Ctx) {
				c.useUv()
				c.base(c.state(), s.ver, s.typ, s.o, func(st *State, p *pkt) {
					c.aWill(st, s.ver, w.topic, w.payload, w.props, 0, func(st *State, m *pkt, q, ret Val, props []*propVal) {
						c.split(st, func(st *State) { refuse(c, st, p, "SetWill", w.what, []Val{m.msg.v}) })
					})
				})
			})
		}
	}
	_ = types.Typ
}
