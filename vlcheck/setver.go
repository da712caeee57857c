package main

import "fmt"

// checkC41: packets completed as MQTT 5.0 packets, then set to an older version: the encoding has none of the parts the
// older version does not know.
func checkC41(r *Report) {
	always := map[int64]bool{tPUBACK: true, tPUBREC: true, tPUBREL: true, tPUBCOMP: true, tDISCONNECT: true, tUNSUBACK: true, tUNSUBSCRIBE: true, tPINGREQ: true, tPINGRESP: true}
	for _, s := range append(plainScens(), propScens()...) {
		if s.ver < 5 || s.o.n > 3 || s.o.via != 0 || s.typ == tAUTH || s.typ == tCONNECT {
			continue
		}
		for _, v := range versions {
			s, v := s, v
			if v >= 5 {
				continue
			}
			r.add(fmt.Sprintf("%s, then version %d", s.name, v), func(c *Ctx) {
				c.useUv()
				c.base(c.state(), s.ver, s.typ, s.o, func(st *State, p0 *pkt) {
					p := p0.clone()
					p.ver, p.props = v, nil
					var old []part
					switch p.typ {
					case tPUBACK, tPUBREC, tPUBREL, tPUBCOMP, tUNSUBACK:
						old = p.alts[0][:1:1] // the identifier
					case tDISCONNECT:
					default:
						for _, x := range p.alts[0] {
							if !x.block {
								old = append(old, x)
							}
						}
					}
					p.alts = [][]part{old}
					c.set(st, p.msg, "SetVersion", []Val{cst(v)}, func(st *State) {
						c.split(st, func(st *State) {
							c.cells++
							c.encoded(st, p, func(st *State, n *Aff, e encRes) {
								if !e.ok {
									c.must(st, !always[p.typ], "encodes", "the packet cannot be encoded for version %d: %s", v, c.errName(st, e.err))
									return
								}
								got := st.sub(e.now, K(0), st.affOf(e.n))
								c.must(st, c.matchPkt(st, got, p), "by-version", "for version %d the packet is encoded as %s", v, got)
							})
						})
					})
				})
			})
		}
	}
}
