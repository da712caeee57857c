package main

import (
	"fmt"
	"strings"
)

// checkC40: from every packet shape, one call of one setter with unknown arguments. If it does not report an error, the
// accessors that belong to it report the arguments, and all others what they did before.
func checkC40(r *Report) {
	// call numbers the call whose arguments are made
	call := func(c *Ctx) string { return fmt.Sprint(c.round, " ") }
	num := func(c *Ctx, name string, lo, hi int64) Val {
		name = call(c) + name
		return sv(c.in.symKey("set|"+name, name, lo, hi))
	}
	blob := func(c *Ctx, name string) *Seq {
		name = call(c) + name
		l := c.in.symKey("setlen|"+name, "len "+name, 0, 1<<20)
		return &Seq{[]Piece{{k: pBlob, base: c.in.blobKey("set|" + name), off: K(0), n: S(l)}}}
	}
	type effect struct {
		acc  string // accessor
		want Val
	}
	type op struct {
		name string
		call func(c *Ctx, st *State, old map[string]Val) (args []Val, eff []effect)
		also []string // accessors that may change with it
	}
	simple := func(name, acc string, lo, hi int64, also ...string) op {
		return op{name, func(c *Ctx, st *State, old map[string]Val) ([]Val, []effect) {
			v := num(c, "new "+acc, lo, hi)
			return []Val{v}, []effect{{acc + "()", v}}
		}, also}
	}
	// setters that cannot refuse a code: any that the standard defines
	reason := func(t int64, name, acc string) op {
		return op{name, func(c *Ctx, st *State, old map[string]Val) ([]Val, []effect) {
			n := call(c) + "new " + acc
			v := c.in.symKey("set|"+n, n, 0, 255)
			st.restrict(v, func(x int64) bool { return reasonCodesV5[t][x] })
			return []Val{sv(v)}, []effect{{acc + "()", sv(v)}}
		}, nil}
	}
	setBytes := func(name, acc string, also ...string) op {
		return op{name, func(c *Ctx, st *State, old map[string]Val) ([]Val, []effect) {
			v := c.in.bytesOf(st, blob(c, "new "+acc), acc)
			return []Val{v}, []effect{{acc + "()", v}}
		}, also}
	}
	id := op{"SetPacketID", func(c *Ctx, st *State, old map[string]Val) ([]Val, []effect) {
		v := num(c, "new ID", 1, 65535)
		return []Val{v}, []effect{{"ID()#0", v}, {"ID()#1", &Iface{}}}
	}, nil}
	codes := func(n int) op {
		return op{"AddReturnCodes", func(c *Ctx, st *State, old map[string]Val) ([]Val, []effect) {
			s, ok := st.finVal(old["ReturnCodes()"]).(*Slice)
			if !ok {
				undecided("return codes %s", valStr(old["ReturnCodes()"]))
			}
			es, all := c.elems(st, s)
			if all == nil {
				all = &Seq{}
			}
			for _, e := range es {
				all = cat(all, byteSeq(e))
			}
			var l []Val
			for i := 0; i < n; i++ {
				v := num(c, fmt.Sprint("new code ", i), 0, 255)
				l, all = append(l, v), cat(all, byteSeq(v))
			}
			return []Val{c.list(st, c.typ("ReasonCode"), l...)}, []effect{{"ReturnCodes()", c.in.bytesOf(st, all, "codes")}}
		}, nil}
	}
	ops := map[int64][]op{
		tCONNECT: {
			simple("SetClean", "IsClean", 0, 1), simple("SetKeepAlive", "KeepAlive", 0, 65535), setBytes("SetClientID", "ClientID"),
			{"SetCredentials", func(c *Ctx, st *State, old map[string]Val) ([]Val, []effect) {
				u, p := c.in.bytesOf(st, blob(c, "new user name"), "user name"), c.in.bytesOf(st, blob(c, "new password"), "password")
				return []Val{u, p}, []effect{{"Credentials()#0", u}, {"Credentials()#1", p}}
			}, nil},
		},
		tCONNACK: {simple("SetSessionPresent", "SessionPresent", 0, 1), simple("SetReturnCode", "ReturnCode", 0, 255)},
		tPUBLISH: {
			simple("SetQoS", "QoS", 0, 255, "Flags()"), simple("SetRetain", "Retain", 0, 1, "Flags()"), simple("SetDup", "Dup", 0, 1, "Flags()"),
			setBytes("SetPayload", "Payload"), simple("SetPublishID", "PublishID", 0, 1<<45),
			{"SetTopic", func(c *Ctx, st *State, old map[string]Val) ([]Val, []effect) {
				v := &Str{blob(c, "new topic")}
				return []Val{v}, []effect{{"Topic()", v}}
			}, nil},
			{"Set", func(c *Ctx, st *State, old map[string]Val) ([]Val, []effect) {
				t, b := &Str{blob(c, "new topic")}, c.in.bytesOf(st, blob(c, "new payload"), "payload")
				q, re, d := num(c, "new QoS", 0, 255), num(c, "new retain", 0, 1), num(c, "new dup", 0, 1)
				return []Val{t, b, q, re, d}, []effect{{"Topic()", t}, {"Payload()", b}, {"QoS()", q}, {"Retain()", re}, {"Dup()", d}}
			}, []string{"Flags()"}},
			id,
		},
		tSUBACK:    {codes(1), codes(2), codes(3), id},
		tUNSUBACK:  {codes(1), codes(2), codes(3), id},
		tSUBSCRIBE: {id}, tUNSUBSCRIBE: {id},
		tDISCONNECT: {reason(tDISCONNECT, "SetReasonCode", "ReasonCode")},
		tAUTH:       {simple("SetReasonCode", "ReasonCode", 0, 255)},
	}
	for _, t := range []int64{tPUBACK, tPUBREC, tPUBREL, tPUBCOMP} {
		ops[t] = []op{reason(t, "SetReason", "Reason"), id}
	}
	for _, t := range allTypes(5) {
		ops[t] = append(ops[t], simple("SetVersion", "Version", 3, 5))
	}
	// everything the accessors report; a PUBLISH also has an identifier of its origin
	look := func(c *Ctx, st *State, p *pkt, k func(st *State, o []obsVal)) {
		c.observe(st, p.msg, func(st *State, o []obsVal) {
			if p.typ != tPUBLISH {
				k(st, o)
				return
			}
			c.inv(st, p.msg, "PublishID", nil, func(st *State, rv Val) { k(st, append(o[:len(o):len(o)], obsVal{"PublishID()", rv})) })
		})
	}
	setter := func(c *Ctx, st *State, p *pkt, o op) {
		look(c, st, p, func(st *State, o0 []obsVal) {
			old := map[string]Val{}
			for _, x := range o0 {
				old[x.name] = x.v
			}
			args, eff := o.call(c, st, old)
			if p.ver < 5 && o.name == "SetReason" {
				eff = nil // there are no reasons before MQTT 5.0
			}
			c.set(st, p.msg, o.name, args, func(st *State) {
				c.split(st, func(st *State) {
					c.cells++
					look(c, st, p, func(st *State, o1 []obsVal) {
						c.split(st, func(st *State) {
							now := map[string]Val{}
							for _, x := range o1 {
								now[x.name] = x.v
							}
							for _, e := range eff {
								if c.must(st, now[e.acc] != nil, "set", "after %s nothing reports %s", o.name, e.acc) {
									c.must(st, c.same(st, now[e.acc], e.want) == 1, "set", "after %s(%s) %s reports %s", o.name, c.show(st, e.want), e.acc, c.show(st, now[e.acc]))
								}
							}
							d := c.sameObs(st, o0, o1, func(n string) bool {
								for _, e := range eff {
									if e.acc == n {
										return true
									}
								}
								for _, a := range o.also {
									if a == n {
										return true
									}
								}
								return false
							})
							c.must(st, d == "", "others", "%s changes what belongs to no part it sets: %s", o.name, d)
						})
					})
				})
			})
		})
	}
	for _, s := range plainScens() {
		s := s
		if s.o.n > 2 || strings.Contains(s.name, "noid") {
			continue
		}
		for i, o := range ops[s.typ] {
			o := o
			r.add(fmt.Sprintf("%s #%d on %s", o.name, i, s.name), func(c *Ctx) {
				c.useUv()
				c.base(c.state(), s.ver, s.typ, s.o, func(st *State, p *pkt) {
					c.split(st, func(st *State) { setter(c, st, p, o) })
				})
			})
		}
	}
	// new packets, after no other call or one
	for _, ver := range versions {
		for _, t := range allTypes(ver) {
			for i := -1; i < len(ops[t]); i++ {
				ver, t, i := ver, t, i
				if i >= 0 && ops[t][i].name == "SetVersion" {
					continue // the version is then unknown
				}
				first := "no call"
				if i >= 0 {
					first = fmt.Sprintf("%s #%d", ops[t][i].name, i)
				}
				r.add(fmt.Sprintf("any setter on a new %s %s after %s", typeNames[t], vname(ver), first), func(c *Ctx) {
					c.useUv()
					c.newPkt(c.state(), ver, t, func(st *State, p *pkt) {
						second := func(st *State) {
							for _, o := range ops[t] {
								o := o
								c.split(st, func(st *State) { setter(c, st, p, o) })
							}
						}
						if i < 0 {
							second(st)
							return
						}
						c.observe(st, p.msg, func(st *State, o0 []obsVal) {
							old := map[string]Val{}
							for _, x := range o0 {
								old[x.name] = x.v
							}
							c.round = 1
							args, _ := ops[t][i].call(c, st, old)
							c.round = 0
							c.set(st, p.msg, ops[t][i].name, args, second)
						})
					})
				})
			}
		}
	}
}
