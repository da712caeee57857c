package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// checkC39: the walk over the topics of a SUBSCRIBE or UNSUBSCRIBE packet, with a callback that fails at one of them or
// at none; the packet is built topic by topic or decoded.
func checkC39(r *Report) {
	// walk calls ForEachTopic with a callback that fails at topic fail (never when negative).
	walk := func(c *Ctx, st *State, m *Iface, fail int, k func(st *State, seen []Val, err Val)) {
		box := st.alloc(&ArrV{}, nil, "walked topics")
		name := fmt.Sprint("callback:walk", fail)
		c.in.override[name] = func(in *Interp, st *State, args []Val, site ssa.Instruction) []Outcome {
			a := st.get(box).(*ArrV)
			n := len(a.e)
			st.set(box, &ArrV{append(a.e[:n:n], args[len(args)-1])})
			if n == fail {
				return one(st, &Iface{c.typ("ReasonCode"), cst(0xE1)})
			}
			return one(st, &Iface{})
		}
		c.inv(st, m, "ForEachTopic", []Val{&Func{ext: name}}, func(st *State, rv Val) {
			k(st, st.get(box).(*ArrV).e, rv)
		})
	}
	// verify compares what one walk did with what it was to do.
	var verify func(c *Ctx, m *Iface, fail int, topics []*Seq, st *State, again bool)
	verify = func(c *Ctx, m *Iface, fail int, topics []*Seq, st *State, again bool) {
		n := len(topics)
		walk(c, st, m, fail, func(st *State, seen []Val, err Val) {
			c.split(st, func(st *State) {
				c.cells++
				want := n
				if fail >= 0 {
					want = fail + 1
				}
				c.must(st, len(seen) == want, "visits", "a walk over %d topics with %s visits %d topics", n, failText(fail), len(seen))
				if fail < 0 {
					c.must(st, c.nilErr(st, err), "no-error", "a walk over %d topics whose callback never fails reports an error", n)
				} else {
					e, ok := st.finVal(err).(*Iface)
					same := ok && e.t != nil && typeName(e.t) == "ReasonCode"
					if same {
						v, isC := isConstNum(st.finVal(e.v))
						same = isC && v == 0xE1
					}
					c.must(st, same, "its-error", "a walk over %d topics with %s does not return the callback's error but %s", n, failText(fail), valStr(err))
				}
				if len(seen) > n {
					return
				}
				var each func(st *State, i int)
				each = func(st *State, i int) {
					if i == len(seen) {
						if again {
							verify(c, m, -1, topics, st, false) // a walk changes nothing
						}
						return
					}
					c.get(st, &Iface{types_ptr(c, "Topic"), seen[i]}, "Full", nil, func(st *State, rv Val) {
						got, ok := st.finVal(rv).(*Str)
						c.must(st, ok && st.seqEq(got.q, topics[i]) == 1, "order", "a walk over %d topics delivers %s as topic %d, which is not the one added there", n, valStr(rv), i)
						each(st, i+1)
					})
				}
				each(st, 0)
			})
		})
	}
	for _, ver := range versions {
		for _, t := range []int64{tSUBSCRIBE, tUNSUBSCRIBE} {
			for _, n := range []int{0, 1, 2, 3, 4, 9} {
				ver, t, n := ver, t, n
				r.add(fmt.Sprintf("%s %s of %d topics", typeNames[t], vname(ver), n), func(c *Ctx) {
					c.useUv()
					c.base(c.state(), ver, t, opts{n: n, variant: "plain"}, func(st *State, p *pkt) {
						for fail := -1; fail < n; fail++ {
							fail := fail
							c.split(st, func(st *State) { verify(c, p.msg, fail, p.topics, st, true) })
						}
					})
				})
			}
		}
	}
	// properties: before MQTT 5.0 there are none to walk over
	for _, ver := range versions {
		for _, t := range allTypes(ver) {
			ver, t := ver, t
			if ver >= 5 {
				continue
			}
			r.add(fmt.Sprintf("properties of %s %s", typeNames[t], vname(ver)), func(c *Ctx) {
				c.useUv()
				o := opts{n: 1}
				c.base(c.state(), ver, t, o, func(st *State, p *pkt) {
					c.split(st, func(st *State) {
						c.cells++
						calls := st.alloc(&ArrV{}, nil, "walked properties")
						name := "callback:props"
						c.in.override[name] = func(in *Interp, st *State, args []Val, site ssa.Instruction) []Outcome {
							a := st.get(calls).(*ArrV)
							st.set(calls, &ArrV{append(a.e[:len(a.e):len(a.e)], args[0])})
							return one(st, Tuple{})
						}
						c.get(st, p.msg, "PropertyForEach", []Val{&Func{ext: name}}, func(st *State, rv Val) {
							c.must(st, !c.nilErr(st, rv), "refused", "a walk over the properties of a packet before MQTT 5.0 succeeds")
							c.must(st, len(st.get(calls).(*ArrV).e) == 0, "refused", "a walk over the properties of a packet before MQTT 5.0 visits some")
						})
					})
				})
			})
		}
	}
}

func failText(i int) string {
	if i < 0 {
		return "a callback that never fails"
	}
	return fmt.Sprintf("a callback that fails at topic %d", i)
}
